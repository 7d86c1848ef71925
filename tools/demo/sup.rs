//! Minimal in-memory store and in-process network for a demonstration.
#![allow(dead_code)]
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::future::Future;
use std::io::Cursor;
use std::ops::RangeBounds;
use std::sync::Arc;
use std::sync::Mutex;

use openraft::error::NetworkError;
use openraft::error::RPCError;
use openraft::error::ReplicationClosed;
use openraft::error::StreamingError;
use openraft::error::Unreachable;
use openraft::network::v2::RaftNetworkV2;
use openraft::network::RPCOption;
use openraft::network::RaftNetworkFactory;
pub use openraft::raft::*;
use openraft::storage::IOFlushed;
use openraft::storage::LogState;
use openraft::storage::RaftLogReader;
use openraft::storage::RaftLogStorage;
use openraft::storage::RaftSnapshotBuilder;
use openraft::storage::RaftStateMachine;
pub use openraft::BasicNode;
pub use openraft::Config;
pub use openraft::EntryPayload;
use openraft::OptionalSend;
use serde::Deserialize;
use serde::Serialize;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Req(pub u64);
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Resp(pub u64);

openraft::declare_raft_types!(pub TC: D = Req, R = Resp, NodeId = u64, Node = BasicNode, SnapshotData = Cursor<Vec<u8>>);

pub type Raft = openraft::Raft<TC>;
pub type LogId = openraft::LogId<u64>;
pub type Vote = openraft::Vote<u64>;
pub type Entry = openraft::Entry<TC>;
pub type Membership = openraft::Membership<TC>;
pub type StoredMembership = openraft::StoredMembership<TC>;
pub type SnapshotMeta = openraft::SnapshotMeta<TC>;
pub type Snapshot = openraft::Snapshot<TC>;
pub type StorageError = openraft::StorageError<TC>;

pub fn lid(term: u64, node: u64, index: u64) -> LogId {
    LogId::new(openraft::CommittedLeaderId::new(term, node), index)
}
pub fn blank(l: LogId) -> Entry {
    Entry { log_id: l, payload: EntryPayload::Blank }
}
pub fn normal(l: LogId, v: u64) -> Entry {
    Entry { log_id: l, payload: EntryPayload::Normal(Req(v)) }
}
pub fn member(l: LogId, m: Membership) -> Entry {
    Entry { log_id: l, payload: EntryPayload::Membership(m) }
}
pub fn mem(configs: &[&[u64]], all: &[u64]) -> Membership {
    let nodes: BTreeMap<u64, BasicNode> = all.iter().map(|n| (*n, BasicNode::new(format!("n{n}")))).collect();
    Membership::new(configs.iter().map(|c| c.iter().copied().collect::<BTreeSet<u64>>()).collect(), nodes)
}
pub fn append(vote: Vote, prev: Option<LogId>, entries: Vec<Entry>, commit: Option<LogId>) -> AppendEntriesRequest<TC> {
    AppendEntriesRequest { vote, prev_log_id: prev, entries, leader_commit: commit }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq)]
pub struct SmState {
    pub applied: Option<LogId>,
    pub membership: StoredMembership,
    pub data: Vec<(LogId, u64)>,
}

#[derive(Default)]
pub struct Disk {
    pub vote: Option<Vote>,
    pub log: BTreeMap<u64, Entry>,
    pub purged: Option<LogId>,
    pub sm: SmState,
    pub snap: Option<(SnapshotMeta, Vec<u8>)>,
    pub committed: Option<LogId>,
    /// Flush notifications are kept back.
    pub hold: bool,
    pub held: Vec<IOFlushed<TC>>,
    /// Saving a vote blocks while set.
    pub hold_vote: bool,
    pub hold_build: bool,
    pub hold_apply: bool,
    pub fail: Option<&'static str>,
    pub calls: Vec<String>,
}

#[derive(Clone, Default)]
pub struct Store(pub Arc<Mutex<Disk>>);

impl Store {
    pub fn d<T>(&self, f: impl FnOnce(&mut Disk) -> T) -> T {
        f(&mut self.0.lock().unwrap())
    }
    pub fn release(&self) {
        let cbs = self.d(|d| {
            d.hold = false;
            std::mem::take(&mut d.held)
        });
        for c in cbs {
            c.io_completed(Ok(()));
        }
    }
    async fn wait(&self, f: impl Fn(&Disk) -> bool) {
        while self.d(|d| f(d)) {
            tokio::time::sleep(std::time::Duration::from_millis(2)).await;
        }
    }
    pub fn last(&self) -> Option<LogId> {
        self.d(|d| d.log.values().next_back().map(|e| e.log_id).or(d.purged))
    }
    fn err(&self, what: &'static str) -> Result<(), StorageError> {
        if self.d(|d| d.fail == Some(what)) {
            return Err(StorageError::from_io_error(
                openraft::ErrorSubject::Store,
                openraft::ErrorVerb::Write,
                std::io::Error::new(std::io::ErrorKind::Other, what),
            ));
        }
        Ok(())
    }
}

impl RaftLogReader<TC> for Store {
    async fn try_get_log_entries<RB: RangeBounds<u64> + Clone + Debug + OptionalSend>(&mut self, range: RB) -> Result<Vec<Entry>, StorageError> {
        Ok(self.d(|d| d.log.range(range).map(|(_, e)| e.clone()).collect()))
    }
    async fn read_vote(&mut self) -> Result<Option<Vote>, StorageError> {
        Ok(self.d(|d| d.vote))
    }
}

impl RaftLogStorage<TC> for Store {
    type LogReader = Store;
    async fn get_log_state(&mut self) -> Result<LogState<TC>, StorageError> {
        Ok(LogState { last_purged_log_id: self.d(|d| d.purged), last_log_id: self.last() })
    }
    async fn get_log_reader(&mut self) -> Store {
        self.clone()
    }
    async fn save_vote(&mut self, vote: &Vote) -> Result<(), StorageError> {
        self.d(|d| d.calls.push(format!("save_vote {vote}")));
        self.wait(|d| d.hold_vote).await;
        self.err("save_vote")?;
        self.d(|d| d.vote = Some(*vote));
        Ok(())
    }
    async fn save_committed(&mut self, committed: Option<LogId>) -> Result<(), StorageError> {
        self.d(|d| d.committed = committed);
        Ok(())
    }
    async fn read_committed(&mut self) -> Result<Option<LogId>, StorageError> {
        Ok(self.d(|d| d.committed))
    }
    async fn append<I>(&mut self, entries: I, callback: IOFlushed<TC>) -> Result<(), StorageError>
    where
        I: IntoIterator<Item = Entry> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        let cb = self.d(|d| {
            for e in entries {
                d.log.insert(e.log_id.index, e);
            }
            if d.hold {
                d.held.push(callback);
                None
            } else {
                Some(callback)
            }
        });
        if let Some(cb) = cb {
            cb.io_completed(Ok(()));
        }
        Ok(())
    }
    async fn truncate(&mut self, log_id: LogId) -> Result<(), StorageError> {
        self.d(|d| {
            d.calls.push(format!("truncate {log_id}"));
            d.log.split_off(&log_id.index);
        });
        Ok(())
    }
    async fn purge(&mut self, log_id: LogId) -> Result<(), StorageError> {
        self.d(|d| {
            d.calls.push(format!("purge {log_id}"));
            d.purged = Some(log_id);
            let keep = d.log.split_off(&(log_id.index + 1));
            d.log = keep;
        });
        Ok(())
    }
}

pub struct Builder(Store, SmState);
impl RaftSnapshotBuilder<TC> for Builder {
    async fn build_snapshot(&mut self) -> Result<Snapshot, StorageError> {
        self.0.wait(|d| d.hold_build).await;
        self.0.err("build")?;
        let st = self.1.clone();
        let meta = SnapshotMeta {
            last_log_id: st.applied,
            last_membership: st.membership.clone(),
            snapshot_id: format!("s-{}", st.applied.map(|x| x.index).unwrap_or(0)),
        };
        let bytes = serde_json::to_vec(&st).unwrap();
        self.0.d(|d| {
            if d.snap.as_ref().map(|s| s.0.last_log_id) <= Some(meta.last_log_id) {
                d.snap = Some((meta.clone(), bytes.clone()));
            }
        });
        Ok(Snapshot { meta, snapshot: Box::new(Cursor::new(bytes)) })
    }
}

impl RaftStateMachine<TC> for Store {
    type SnapshotBuilder = Builder;
    async fn applied_state(&mut self) -> Result<(Option<LogId>, StoredMembership), StorageError> {
        Ok(self.d(|d| (d.sm.applied, d.sm.membership.clone())))
    }
    async fn apply<I>(&mut self, entries: I) -> Result<Vec<Resp>, StorageError>
    where
        I: IntoIterator<Item = Entry> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        let es: Vec<Entry> = entries.into_iter().collect();
        self.wait(|d| d.hold_apply).await;
        self.err("apply")?;
        Ok(self.d(|d| {
            let mut out = vec![];
            for e in es {
                d.calls.push(format!("apply {}", e.log_id));
                d.sm.applied = Some(e.log_id);
                match e.payload {
                    EntryPayload::Blank => {}
                    EntryPayload::Normal(r) => d.sm.data.push((e.log_id, r.0)),
                    EntryPayload::Membership(m) => d.sm.membership = StoredMembership::new(Some(e.log_id), m),
                }
                out.push(Resp(e.log_id.index));
            }
            out
        }))
    }
    async fn get_snapshot_builder(&mut self) -> Builder {
        Builder(self.clone(), self.d(|d| d.sm.clone()))
    }
    async fn begin_receiving_snapshot(&mut self) -> Result<Box<Cursor<Vec<u8>>>, StorageError> {
        Ok(Box::new(Cursor::new(vec![])))
    }
    async fn install_snapshot(&mut self, meta: &SnapshotMeta, snapshot: Box<Cursor<Vec<u8>>>) -> Result<(), StorageError> {
        let bytes = snapshot.into_inner();
        let st: SmState = serde_json::from_slice(&bytes).unwrap();
        self.d(|d| {
            d.calls.push(format!("install {:?}", meta.last_log_id));
            d.sm = st;
            d.sm.applied = meta.last_log_id;
            d.sm.membership = meta.last_membership.clone();
            d.snap = Some((meta.clone(), bytes));
        });
        Ok(())
    }
    async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot>, StorageError> {
        Ok(self.d(|d| d.snap.clone().map(|(meta, b)| Snapshot { meta, snapshot: Box::new(Cursor::new(b)) })))
    }
}

pub fn snapshot(last: Option<LogId>, membership: StoredMembership, data: Vec<(LogId, u64)>) -> Snapshot {
    let st = SmState { applied: last, membership: membership.clone(), data };
    Snapshot {
        meta: SnapshotMeta { last_log_id: last, last_membership: membership, snapshot_id: format!("x-{}", last.map(|x| x.index).unwrap_or(0)) },
        snapshot: Box::new(Cursor::new(serde_json::to_vec(&st).unwrap())),
    }
}

type AppendFn = Box<dyn Fn(u64, AppendEntriesRequest<TC>) -> Option<Result<AppendEntriesResponse<TC>, ()>> + Send>;

#[derive(Default)]
pub struct HubIn {
    pub rafts: BTreeMap<u64, Raft>,
    pub cut: BTreeSet<(u64, u64)>,
    /// Replaces the answer of a target to an append (None: pass it on).
    pub on_append: Option<AppendFn>,
    pub on_vote: Option<Box<dyn Fn(u64, VoteRequest<TC>) -> Option<Result<VoteResponse<TC>, ()>> + Send>>,
    pub appends: Vec<(u64, u64, AppendEntriesRequest<TC>)>,
    pub votes: Vec<(u64, u64, VoteRequest<TC>)>,
    pub snaps: Vec<(u64, u64, Option<LogId>)>,
    pub transfers: Vec<(u64, u64)>,
    /// That many snapshots are lost.
    pub snap_fail: usize,
}

#[derive(Clone, Default)]
pub struct Hub(pub Arc<Mutex<HubIn>>);
impl Hub {
    pub fn h<T>(&self, f: impl FnOnce(&mut HubIn) -> T) -> T {
        f(&mut self.0.lock().unwrap())
    }
    pub fn cut(&self, a: u64, b: u64) {
        self.h(|h| {
            h.cut.insert((a, b));
            h.cut.insert((b, a));
        })
    }
    pub fn heal(&self) {
        self.h(|h| h.cut.clear())
    }
    fn to(&self, from: u64, to: u64) -> Result<Raft, Unreachable> {
        self.h(|h| {
            if h.cut.contains(&(from, to)) {
                return None;
            }
            h.rafts.get(&to).cloned()
        })
        .ok_or_else(|| Unreachable::new(&std::io::Error::new(std::io::ErrorKind::Other, "unreachable")))
    }
}

pub struct Net(pub Hub, pub u64);
pub struct Conn(Hub, u64, u64);
impl RaftNetworkFactory<TC> for Net {
    type Network = Conn;
    async fn new_client(&mut self, target: u64, _node: &BasicNode) -> Conn {
        Conn(self.0.clone(), self.1, target)
    }
}
fn ne() -> NetworkError {
    NetworkError::new(&std::io::Error::new(std::io::ErrorKind::Other, "network"))
}
impl RaftNetworkV2<TC> for Conn {
    async fn append_entries(&mut self, rpc: AppendEntriesRequest<TC>, _o: RPCOption) -> Result<AppendEntriesResponse<TC>, RPCError<TC>> {
        let s = self.0.h(|h| {
            h.appends.push((self.1, self.2, rpc.clone()));
            h.on_append.as_ref().and_then(|f| f(self.2, rpc.clone()))
        });
        if let Some(r) = s {
            return r.map_err(|_| RPCError::Network(ne()));
        }
        let r = self.0.to(self.1, self.2).map_err(RPCError::Unreachable)?;
        let x = r.append_entries(rpc).await.map_err(|_| RPCError::Network(ne()))?;
        self.0.to(self.1, self.2).map_err(RPCError::Unreachable)?;
        Ok(x)
    }
    async fn vote(&mut self, rpc: VoteRequest<TC>, _o: RPCOption) -> Result<VoteResponse<TC>, RPCError<TC>> {
        let s = self.0.h(|h| {
            h.votes.push((self.1, self.2, rpc.clone()));
            h.on_vote.as_ref().and_then(|f| f(self.2, rpc.clone()))
        });
        if let Some(r) = s {
            return r.map_err(|_| RPCError::Network(ne()));
        }
        let r = self.0.to(self.1, self.2).map_err(RPCError::Unreachable)?;
        r.vote(rpc).await.map_err(|_| RPCError::Network(ne()))
    }
    async fn full_snapshot(
        &mut self,
        vote: Vote,
        snapshot: Snapshot,
        _c: impl Future<Output = ReplicationClosed> + OptionalSend + 'static,
        _o: RPCOption,
    ) -> Result<SnapshotResponse<TC>, StreamingError<TC>> {
        self.0.h(|h| h.snaps.push((self.1, self.2, snapshot.meta.last_log_id)));
        let r = self.0.to(self.1, self.2).map_err(StreamingError::Unreachable)?;
        let fail = self.0.h(|h| {
            let f = h.snap_fail > 0;
            h.snap_fail = h.snap_fail.saturating_sub(1);
            f
        });
        if fail {
            return Err(StreamingError::Network(ne()));
        }
        r.install_full_snapshot(vote, snapshot).await.map_err(|_| StreamingError::Network(ne()))
    }
    async fn transfer_leader(&mut self, req: TransferLeaderRequest<TC>, _o: RPCOption) -> Result<(), RPCError<TC>> {
        self.0.h(|h| h.transfers.push((self.1, self.2)));
        let r = self.0.to(self.1, self.2).map_err(RPCError::Unreachable)?;
        r.handle_transfer_leader(req).await.map_err(|_| RPCError::Network(ne()))
    }
}

pub fn quiet() -> Config {
    Config {
        enable_tick: true,
        enable_heartbeat: false,
        enable_elect: false,
        heartbeat_interval: 50,
        election_timeout_min: 200,
        election_timeout_max: 300,
        snapshot_policy: openraft::SnapshotPolicy::Never,
        max_in_snapshot_log_to_keep: 0,
        purge_batch_size: 1,
        ..Default::default()
    }
}

pub async fn node(hub: &Hub, id: u64, cfg: Config, st: &Store) -> Raft {
    let r = Raft::new(id, Arc::new(cfg.validate().unwrap()), Net(hub.clone(), id), st.clone(), st.clone()).await.unwrap();
    hub.h(|h| h.rafts.insert(id, r.clone()));
    r
}

/// Nodes 1..=n, initialized with the first `voters` of them, node 1 leads.
pub async fn cluster(n: u64, voters: u64, cfg: Config) -> (Hub, Vec<Store>, Vec<Raft>) {
    let hub = Hub::default();
    let (mut sts, mut rs) = (vec![], vec![]);
    for id in 1..=n {
        let st = Store::default();
        rs.push(node(&hub, id, cfg.clone(), &st).await);
        sts.push(st);
    }
    let m: BTreeMap<u64, BasicNode> = (1..=voters).map(|n| (n, BasicNode::new(format!("n{n}")))).collect();
    rs[0].initialize(m).await.unwrap();
    until("a leader", || rs[0].metrics().borrow().current_leader == Some(1)).await;
    rs[0].client_write(Req(1)).await.unwrap();
    (hub, sts, rs)
}

/// A follower holding the membership [1,2,3] at index 0, from leader 2 of term 1.
pub async fn follower(cfg: Config) -> (Hub, Store, Raft) {
    let hub = Hub::default();
    let st = Store::default();
    let r = node(&hub, 1, cfg, &st).await;
    let m = member(lid(1, 2, 0), mem(&[&[1, 2, 3]], &[1, 2, 3]));
    let x = r.append_entries(append(Vote::new_committed(1, 2), None, vec![m], None)).await.unwrap();
    assert!(x.is_success());
    (hub, st, r)
}

pub async fn ms(n: u64) {
    tokio::time::sleep(std::time::Duration::from_millis(n)).await
}

/// Wait until the condition holds, at most 5 s.
pub async fn until(what: &str, mut f: impl FnMut() -> bool) {
    for _ in 0..1000 {
        if f() {
            return;
        }
        ms(5).await;
    }
    panic!("timeout: {what}");
}
