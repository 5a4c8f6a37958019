// Helpers of the demonstration: stores and an application held in memory, and peers that answer as told.
#![allow(dead_code, unused_imports)]
use super::super::*;
use crate::raft;
use std::sync::atomic::{AtomicBool, AtomicU64};
use std::sync::Mutex as StdMutex;

pub type Map<K, V> = std::collections::BTreeMap<K, V>;

#[derive(Clone, Default)]
pub struct MemLog {
    pub m: Arc<StdMutex<Map<Index, Entry>>>,
    pub ops: Arc<StdMutex<Vec<String>>>,
    /// inserts at or after this index wait while it is set
    pub hold_from: Arc<AtomicU64>,
    pub fail: Arc<AtomicBool>,
}
impl MemLog {
    pub fn put(&self, index: Index, term: Term, prev_term: Term, c: Command<'_>) {
        self.m.lock().unwrap().insert(index, ent(index, term, prev_term, c));
    }
    pub fn clock(&self, index: Index) -> Option<(Term, Index)> {
        self.m.lock().unwrap().get(&index).map(|e| (e.this_clock.term, e.this_clock.index))
    }
    pub fn last(&self) -> Index {
        self.m.lock().unwrap().keys().last().copied().unwrap_or(0)
    }
}
#[async_trait::async_trait]
impl RaftLogStore for MemLog {
    async fn insert_entry(&self, i: Index, e: Entry) -> Result<()> {
        loop {
            let h = self.hold_from.load(Ordering::SeqCst);
            if h == 0 || i < h {
                break;
            }
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
        anyhow::ensure!(!self.fail.load(Ordering::SeqCst), "storage");
        self.ops.lock().unwrap().push(format!("insert {i}"));
        self.m.lock().unwrap().insert(i, e);
        Ok(())
    }
    async fn delete_entries_before(&self, i: Index) -> Result<()> {
        let mut m = self.m.lock().unwrap();
        let rest = m.split_off(&i);
        *m = rest;
        Ok(())
    }
    async fn delete_entries_from(&self, i: Index) -> Result<()> {
        self.m.lock().unwrap().split_off(&i);
        Ok(())
    }
    async fn get_entry(&self, i: Index) -> Result<Option<Entry>> {
        Ok(self.m.lock().unwrap().get(&i).cloned())
    }
    async fn get_head_index(&self) -> Result<Index> {
        Ok(self.m.lock().unwrap().keys().next().copied().unwrap_or(0))
    }
    async fn get_last_index(&self) -> Result<Index> {
        Ok(self.last())
    }
}

#[derive(Clone)]
pub struct MemBallot {
    pub b: Arc<StdMutex<Ballot>>,
    pub hist: Arc<StdMutex<Vec<Ballot>>>,
    pub delay_ms: Arc<AtomicU64>,
}
impl MemBallot {
    pub fn new() -> Self {
        Self::at(0, None)
    }
    pub fn at(term: Term, v: Option<NodeId>) -> Self {
        let b = Ballot { cur_term: term, voted_for: v };
        Self { b: Arc::new(StdMutex::new(b)), hist: Default::default(), delay_ms: Default::default() }
    }
    pub fn get(&self) -> Ballot {
        self.b.lock().unwrap().clone()
    }
}
#[async_trait::async_trait]
impl RaftBallotStore for MemBallot {
    async fn save_ballot(&self, v: Ballot) -> Result<()> {
        let d = self.delay_ms.load(Ordering::SeqCst);
        if d > 0 {
            tokio::time::sleep(Duration::from_millis(d)).await;
        }
        self.hist.lock().unwrap().push(v.clone());
        *self.b.lock().unwrap() = v;
        Ok(())
    }
    async fn load_ballot(&self) -> Result<Ballot> {
        Ok(self.get())
    }
}

#[derive(Clone, Default)]
pub struct TestApp {
    pub writes: Arc<StdMutex<Vec<(Index, Vec<u8>)>>>,
    pub installed: Arc<StdMutex<Vec<Index>>>,
    pub saved: Arc<StdMutex<Map<Index, Vec<u8>>>>,
    pub latest: Arc<AtomicU64>,
    pub fail_writes: Arc<AtomicBool>,
    pub fail_save: Arc<AtomicBool>,
    pub hold_writes: Arc<AtomicBool>,
    pub log: Arc<StdMutex<Option<MemLog>>>,
    pub notes: Arc<StdMutex<Vec<String>>>,
}
#[async_trait::async_trait]
impl RaftApp for TestApp {
    async fn process_read(&self, _: &[u8]) -> Result<Bytes> {
        let w = self.writes.lock().unwrap();
        Ok(Bytes::from(w.iter().map(|x| String::from_utf8_lossy(&x.1).to_string()).collect::<Vec<_>>().join(",")))
    }
    async fn process_write(&self, request: &[u8], i: Index) -> Result<Bytes> {
        while self.hold_writes.load(Ordering::SeqCst) {
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
        anyhow::ensure!(!self.fail_writes.load(Ordering::SeqCst), "app");
        self.writes.lock().unwrap().push((i, request.to_vec()));
        Ok(Bytes::from([b"re:", request].concat()))
    }
    async fn install_snapshot(&self, i: Index) -> Result<()> {
        self.installed.lock().unwrap().push(i);
        Ok(())
    }
    async fn save_snapshot(&self, mut st: SnapshotStream, i: Index) -> Result<()> {
        if let Some(l) = self.log.lock().unwrap().as_ref() {
            let is_snapshot = l.m.lock().unwrap().get(&i).map(|e| std::matches!(Command::deserialize(&e.command), Command::Snapshot { .. }));
            if is_snapshot == Some(true) {
                self.notes.lock().unwrap().push(format!("snapshot entry {i} before its contents"));
            }
        }
        let mut out = vec![];
        while let Some(x) = st.next().await {
            out.extend_from_slice(&x?);
        }
        anyhow::ensure!(!self.fail_save.load(Ordering::SeqCst), "save");
        self.saved.lock().unwrap().insert(i, out);
        Ok(())
    }
    async fn open_snapshot(&self, i: Index) -> Result<SnapshotStream> {
        self.notes.lock().unwrap().push(format!("opened {i}"));
        let data = self.saved.lock().unwrap().get(&i).cloned().unwrap_or_default();
        Ok(Box::pin(futures::stream::iter(vec![Ok(Bytes::from(data))])))
    }
    async fn delete_snapshots_before(&self, i: Index) -> Result<()> {
        let mut m = self.saved.lock().unwrap();
        let rest = m.split_off(&i);
        *m = rest;
        Ok(())
    }
    async fn get_latest_snapshot(&self) -> Result<Index> {
        Ok(self.latest.load(Ordering::SeqCst))
    }
}

pub fn nid(port: u16) -> NodeId {
    NodeId::new(format!("http://127.0.0.1:{port}").parse().unwrap())
}
pub fn free_port() -> u16 {
    std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}
pub fn set(ids: &[NodeId]) -> HashSet<NodeId> {
    ids.iter().cloned().collect()
}
pub fn snapshot(ids: &[NodeId]) -> Command<'static> {
    Command::Snapshot { membership: set(ids) }
}
pub fn config(ids: &[NodeId]) -> Command<'static> {
    Command::ClusterConfiguration { membership: set(ids) }
}
pub fn exec(m: &'static str, id: &str) -> Command<'static> {
    Command::ExecuteRequest { message: m.as_bytes(), request_id: id.to_string() }
}
pub fn ent(index: Index, term: Term, prev_term: Term, c: Command<'_>) -> Entry {
    Entry {
        prev_clock: Clock { term: prev_term, index: index - 1 },
        this_clock: Clock { term, index },
        command: Command::serialize(c),
    }
}

pub struct Node {
    pub id: NodeId,
    pub node: RaftNode,
    pub p: Arc<RaftProcess>,
    pub log: MemLog,
    pub ballot: MemBallot,
    pub app: TestApp,
}
/// A node with one shard, served on its port.
pub async fn start(port: u16, log: MemLog, ballot: MemBallot, app: TestApp) -> Node {
    let id = nid(port);
    let node = RaftNode::new(id.clone());
    *app.log.lock().unwrap() = Some(log.clone());
    let p = RaftProcess::new(app.clone(), log.clone(), ballot.clone(), node.get_driver(0)).await.unwrap();
    node.attach_process(0, p);
    serve(port, crate::raft_service::new(node.clone()));
    let p = node.get_process(0).unwrap();
    reachable(port).await;
    Node { id, node, p, log, ballot, app }
}
pub fn serve(port: u16, svc: raft::raft_server::RaftServer<impl raft::raft_server::Raft>) {
    let socket = format!("127.0.0.1:{port}").parse().unwrap();
    tokio::spawn(async move {
        tonic::transport::Server::builder().add_service(svc).serve(socket).await.unwrap();
    });
}
pub async fn reachable(port: u16) {
    for _ in 0..400 {
        if tokio::net::TcpStream::connect(("127.0.0.1", port)).await.is_ok() {
            return;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
    panic!("port {port} is not served");
}

/// A peer that answers as told and records what it is asked.
#[derive(Clone)]
pub struct Peer {
    pub port: u16,
    pub id: NodeId,
    pub grant: Arc<AtomicBool>,
    pub votes: Arc<StdMutex<Vec<raft::VoteRequest>>>,
    pub beats: Arc<StdMutex<Vec<raft::Heartbeat>>>,
    pub entries: Arc<StdMutex<Vec<(u64, u64, u64, u64)>>>, // header term, header index, entry term, entry index
    pub headers: Arc<StdMutex<Vec<(u64, u64)>>>,
    /// how many entries of a stream it takes; its last index is what it says
    pub take: Arc<AtomicU64>,
    pub last: Arc<AtomicU64>,
    pub follow_last: Arc<AtomicBool>,
    pub silent: Arc<AtomicBool>,
    /// falls silent after the first stream of which it took something
    pub once: Arc<AtomicBool>,
    pub chunks: Arc<StdMutex<Vec<Option<Vec<u8>>>>>,
    pub timeout_now: Arc<AtomicU64>,
    pub asked: Arc<StdMutex<Vec<String>>>,
    pub answer: Arc<StdMutex<Option<Vec<u8>>>>,
}
pub async fn peer() -> Peer {
    let port = free_port();
    let p = Peer {
        port,
        id: nid(port),
        grant: Arc::new(AtomicBool::new(true)),
        votes: Default::default(),
        beats: Default::default(),
        entries: Default::default(),
        headers: Default::default(),
        take: Arc::new(AtomicU64::new(u64::MAX)),
        last: Default::default(),
        follow_last: Arc::new(AtomicBool::new(true)),
        silent: Default::default(),
        once: Default::default(),
        chunks: Default::default(),
        timeout_now: Default::default(),
        asked: Default::default(),
        answer: Default::default(),
    };
    serve(port, raft::raft_server::RaftServer::new(p.clone()));
    reachable(port).await;
    p
}
type R<T> = std::result::Result<tonic::Response<T>, tonic::Status>;
#[tonic::async_trait]
impl raft::raft_server::Raft for Peer {
    type GetSnapshotStream = std::pin::Pin<Box<dyn Stream<Item = std::result::Result<raft::SnapshotChunk, tonic::Status>> + Send>>;
    async fn write(&self, r: tonic::Request<raft::WriteRequest>) -> R<raft::Response> {
        let r = r.into_inner();
        self.asked.lock().unwrap().push(format!("write {} {} {}", r.shard_id, String::from_utf8_lossy(&r.message), r.request_id));
        let a = self.answer.lock().unwrap().clone();
        Ok(tonic::Response::new(raft::Response { message: Bytes::from(a.ok_or(tonic::Status::unknown("no"))?) }))
    }
    async fn read(&self, r: tonic::Request<raft::ReadRequest>) -> R<raft::Response> {
        let r = r.into_inner();
        self.asked.lock().unwrap().push(format!("read {} {}", r.shard_id, String::from_utf8_lossy(&r.message)));
        let a = self.answer.lock().unwrap().clone();
        Ok(tonic::Response::new(raft::Response { message: Bytes::from(a.ok_or(tonic::Status::unknown("no"))?) }))
    }
    async fn process_kern_request(&self, _: tonic::Request<raft::KernRequest>) -> R<()> {
        self.asked.lock().unwrap().push("kern".into());
        Ok(tonic::Response::new(()))
    }
    async fn request_vote(&self, r: tonic::Request<raft::VoteRequest>) -> R<raft::VoteResponse> {
        self.votes.lock().unwrap().push(r.into_inner());
        Ok(tonic::Response::new(raft::VoteResponse { vote_granted: self.grant.load(Ordering::SeqCst) }))
    }
    async fn add_server(&self, _: tonic::Request<raft::AddServerRequest>) -> R<()> {
        Ok(tonic::Response::new(()))
    }
    async fn remove_server(&self, _: tonic::Request<raft::RemoveServerRequest>) -> R<()> {
        Ok(tonic::Response::new(()))
    }
    async fn send_replication_stream(&self, r: tonic::Request<tonic::Streaming<raft::ReplicationStreamChunk>>) -> R<raft::ReplicationStreamResponse> {
        use raft::replication_stream_chunk::Elem;
        if self.silent.load(Ordering::SeqCst) {
            return Err(tonic::Status::unavailable("silent"));
        }
        let mut st = r.into_inner();
        let mut n = 0;
        let mut head = (0, 0);
        while let Some(Ok(c)) = st.next().await {
            match c.elem {
                Some(Elem::Header(h)) => {
                    let c = h.prev_clock.unwrap();
                    head = (c.term, c.index);
                    self.headers.lock().unwrap().push(head);
                }
                Some(Elem::Entry(e)) => {
                    let c = e.clock.unwrap();
                    self.entries.lock().unwrap().push((head.0, head.1, c.term, c.index));
                    if n < self.take.load(Ordering::SeqCst) {
                        n += 1;
                        if self.follow_last.load(Ordering::SeqCst) {
                            self.last.store(c.index, Ordering::SeqCst);
                        }
                    }
                }
                None => break,
            }
        }
        if n > 0 && self.once.load(Ordering::SeqCst) {
            self.silent.store(true, Ordering::SeqCst);
        }
        Ok(tonic::Response::new(raft::ReplicationStreamResponse { n_inserted: n, log_last_index: self.last.load(Ordering::SeqCst) }))
    }
    async fn get_snapshot(&self, r: tonic::Request<raft::GetSnapshotRequest>) -> R<Self::GetSnapshotStream> {
        self.asked.lock().unwrap().push(format!("snapshot {}", r.into_inner().index));
        let xs: Vec<_> = self
            .chunks
            .lock()
            .unwrap()
            .iter()
            .map(|x| match x {
                Some(d) => Ok(raft::SnapshotChunk { data: Bytes::from(d.clone()) }),
                None => Err(tonic::Status::unknown("broken")),
            })
            .collect();
        Ok(tonic::Response::new(Box::pin(futures::stream::iter(xs))))
    }
    async fn send_heartbeat(&self, r: tonic::Request<raft::Heartbeat>) -> R<()> {
        self.beats.lock().unwrap().push(r.into_inner());
        Ok(tonic::Response::new(()))
    }
    async fn send_timeout_now(&self, _: tonic::Request<raft::TimeoutNow>) -> R<()> {
        self.timeout_now.fetch_add(1, Ordering::SeqCst);
        Ok(tonic::Response::new(()))
    }
}

pub fn vote(term: Term, id: &NodeId, last: (Term, Index), force: bool, pre: bool) -> request::RequestVote {
    request::RequestVote {
        candidate_id: id.clone(),
        candidate_clock: Clock { term: last.0, index: last.1 },
        vote_term: term,
        force_vote: force,
        pre_vote: pre,
    }
}
pub fn beat(term: Term, commit: Index) -> request::Heartbeat {
    request::Heartbeat { leader_term: term, leader_commit_index: commit }
}
pub fn stream_of(sender: &NodeId, es: Vec<Entry>) -> request::ReplicationStream {
    let prev_clock = es[0].prev_clock;
    let xs: Vec<_> = es.into_iter().map(|e| Some(request::ReplicationStreamElem { this_clock: e.this_clock, command: e.command })).collect();
    request::ReplicationStream { sender_id: sender.clone(), prev_clock, entries: Box::pin(futures::stream::iter(xs)) }
}
pub async fn ms(n: u64) {
    tokio::time::sleep(Duration::from_millis(n)).await;
}
/// waits until f holds; false if it does not within n ms
pub async fn until(n: u64, mut f: impl FnMut() -> bool) -> bool {
    for _ in 0..n / 5 {
        if f() {
            return true;
        }
        ms(5).await;
    }
    f()
}
/// a leader of the given members, its barrier committed
pub async fn lead(n: &Node) -> Term {
    n.p.send_timeout_now().await.unwrap();
    let t = n.ballot.get().cur_term;
    assert!(std::matches!(n.p.voter.read_election_state(), voter::ElectionState::Leader), "setup: not elected");
    t
}
pub fn is_leader(n: &Node) -> bool {
    std::matches!(n.p.voter.read_election_state(), voter::ElectionState::Leader)
}
pub fn commit_of(n: &Node) -> Index {
    n.p.command_log.commit_pointer.load(Ordering::SeqCst)
}
pub fn applied_of(n: &Node) -> Index {
    n.p.command_log.user_pointer.load(Ordering::SeqCst)
}
pub fn write(m: &'static str, id: &str) -> request::UserWriteRequest {
    request::UserWriteRequest { message: Bytes::from(m), request_id: id.to_string() }
}
pub async fn within<T>(n: u64, f: impl std::future::Future<Output = T>) -> Option<T> {
    tokio::time::timeout(Duration::from_millis(n), f).await.ok()
}
