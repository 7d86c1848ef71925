//! Type config used by the simulated cluster.
use std::io::Cursor;

use openraft::BasicNode;
use serde::Deserialize;
use serde::Serialize;

use crate::exec::SimRuntime;

pub type Nid = u64;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Req {
    /// unique operation id
    pub op: u64,
    pub key: u8,
    pub val: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Resp {
    pub op: u64,
    pub prev: Option<u32>,
    /// hash of the state after applying
    pub hash: u64,
}

openraft::declare_raft_types!(
    pub TC:
        D = Req,
        R = Resp,
        NodeId = u64,
        Node = BasicNode,
        SnapshotData = Cursor<Vec<u8>>,
        AsyncRuntime = SimRuntime,
);

pub type Raft = openraft::Raft<TC>;
pub type LogId = openraft::LogId<u64>;
pub type Vote = openraft::Vote<u64>;
pub type Entry = openraft::Entry<TC>;
pub type Membership = openraft::Membership<TC>;
pub type StoredMembership = openraft::StoredMembership<TC>;
pub type SnapshotMeta = openraft::SnapshotMeta<TC>;
pub type Snapshot = openraft::Snapshot<TC>;
pub type StorageError = openraft::StorageError<TC>;
pub type Payload = openraft::EntryPayload<TC>;
pub type Metrics = openraft::RaftMetrics<TC>;

pub fn node_of(id: u64) -> BasicNode {
    BasicNode { addr: format!("n{id}") }
}

pub fn lid(term: u64, node: u64, index: u64) -> LogId {
    LogId::new(openraft::CommittedLeaderId::new(term, node), index)
}

pub fn idx(l: &Option<LogId>) -> Option<u64> {
    l.as_ref().map(|x| x.index)
}
/// next index: 0 for None
pub fn nx(l: &Option<LogId>) -> u64 {
    l.as_ref().map(|x| x.index + 1).unwrap_or(0)
}
pub fn ls(l: &Option<LogId>) -> String {
    match l {
        None => "-".into(),
        Some(x) => x.to_string(),
    }
}

pub fn payload_hash(p: &Payload) -> u64 {
    use crate::gen::mix;
    match p {
        Payload::Blank => 0x11,
        Payload::Normal(r) => mix(mix(mix(0x22, r.op), r.key as u64), r.val as u64),
        Payload::Membership(m) => membership_hash(m),
    }
}

pub fn membership_hash(m: &Membership) -> u64 {
    use crate::gen::hash_str;
    use crate::gen::mix;
    let mut h = 0x33;
    for c in m.get_joint_config() {
        h = mix(h, 0x44);
        for n in c {
            h = mix(h, *n);
        }
    }
    for (n, node) in m.nodes() {
        h = mix(mix(h, *n), hash_str(&node.addr));
    }
    h
}

pub fn is_majority(set: &std::collections::BTreeSet<u64>, mut has: impl FnMut(u64) -> bool) -> bool {
    let n = set.iter().filter(|x| has(**x)).count();
    n > set.len() / 2
}

/// Naive joint quorum test.
pub fn is_quorum(m: &Membership, mut has: impl FnMut(u64) -> bool) -> bool {
    m.get_joint_config().iter().all(|c| is_majority(c, &mut has))
}

pub fn is_voter(m: &Membership, n: u64) -> bool {
    m.get_joint_config().iter().any(|c| c.contains(&n))
}

pub fn mem_str(m: &Membership) -> String {
    let mut s = String::new();
    for c in m.get_joint_config() {
        s.push('[');
        s.push_str(&c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        s.push(']');
    }
    let l: Vec<String> = m.nodes().map(|(n, _)| *n).filter(|n| !is_voter(m, *n)).map(|x| x.to_string()).collect();
    if !l.is_empty() {
        s.push_str(&format!("+L{{{}}}", l.join(",")));
    }
    s
}
