//! The simulated world: node disks (volatile view, write-ahead queue, durable view), state machines,
//! snapshots, global history, and the oracles that judge every storage call, RPC and API result.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::collections::VecDeque;
use std::sync::Arc;

use openraft::storage::IOFlushed;
use serde::Deserialize;
use serde::Serialize;

use crate::exec;
use crate::exec::Group;
use crate::gen::mix;
use crate::runner::Viol;
use crate::types::*;

#[derive(Clone, Debug, Default)]
pub struct LogImg {
    pub vote: Option<Vote>,
    pub log: BTreeMap<u64, Entry>,
    pub purged: Option<LogId>,
    pub committed: Option<LogId>,
}

impl LogImg {
    pub fn last(&self) -> Option<LogId> {
        self.log.values().next_back().map(|e| e.log_id).or(self.purged)
    }
    pub fn prev_of(&self, index: u64) -> Option<Option<LogId>> {
        if index == 0 {
            return Some(None);
        }
        if let Some(e) = self.log.get(&(index - 1)) {
            return Some(Some(e.log_id));
        }
        if let Some(p) = self.purged {
            if p.index == index - 1 {
                return Some(Some(p));
            }
        }
        None
    }
}

pub enum WalOp {
    Vote(Vote),
    Append(Vec<Entry>),
    Truncate(u64),
    Purge(LogId),
    Committed(Option<LogId>),
}

pub struct Wal {
    pub op: WalOp,
    pub cb: Option<IOFlushed<TC>>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct SmState {
    pub applied: Option<LogId>,
    pub membership: StoredMembership,
    pub kv: BTreeMap<u8, u32>,
    pub hash: u64,
    #[serde(default)]
    pub pad: String,
}
impl Default for SmState {
    fn default() -> Self {
        SmState { applied: None, membership: Default::default(), kv: Default::default(), hash: 0x5eed, pad: String::new() }
    }
}

pub fn lid_hash(l: &LogId) -> u64 {
    let node = if cfg!(feature = "stl") { 0 } else { l.leader_id_node() };
    mix(mix(l.term(), node), l.index)
}

pub trait LidExt {
    fn term(&self) -> u64;
    fn leader_id_node(&self) -> u64;
}
impl LidExt for LogId {
    #[cfg(not(feature = "stl"))]
    fn term(&self) -> u64 {
        self.leader_id.term
    }
    #[cfg(not(feature = "stl"))]
    fn leader_id_node(&self) -> u64 {
        self.leader_id.node_id
    }
    #[cfg(feature = "stl")]
    fn term(&self) -> u64 {
        self.leader_id.term
    }
    #[cfg(feature = "stl")]
    fn leader_id_node(&self) -> u64 {
        0
    }
}

pub fn vote_term(v: &Vote) -> u64 {
    v.leader_id.get_term()
}
pub fn vote_node(v: &Vote) -> Option<u64> {
    v.leader_id.voted_for()
}
pub fn uncommitted(v: &Vote) -> Vote {
    Vote { leader_id: v.leader_id, committed: false }
}
pub fn vkey(v: &Vote) -> (u64, u64) {
    (vote_term(v), vote_node(v).unwrap_or(u64::MAX))
}

impl SmState {
    pub fn apply_one(&mut self, e: &Entry) -> Resp {
        let ph = payload_hash(&e.payload);
        self.hash = mix(self.hash, mix(lid_hash(&e.log_id), ph));
        self.applied = Some(e.log_id);
        let mut r = Resp { op: 0, prev: None, hash: self.hash };
        match &e.payload {
            Payload::Normal(q) => {
                r.op = q.op;
                r.prev = self.kv.insert(q.key, q.val);
            }
            Payload::Membership(m) => {
                self.membership = StoredMembership::new(Some(e.log_id), m.clone());
            }
            Payload::Blank => {}
        }
        r
    }
}

#[derive(Clone)]
pub struct SnapRec {
    pub meta: SnapshotMeta,
    pub bytes: Arc<Vec<u8>>,
    pub state: SmState,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Io {
    SaveVote,
    Append,
    Flush,
    Truncate,
    Purge,
    ReadLog,
    SaveCommitted,
    Apply,
    Build,
    Install,
    GetSnapshot,
    BeginRecv,
}
pub const ALL_IO: [Io; 12] = [
    Io::Append, Io::SaveVote, Io::Flush, Io::Truncate, Io::Purge, Io::ReadLog, Io::SaveCommitted, Io::Apply, Io::Build,
    Io::Install, Io::GetSnapshot, Io::BeginRecv,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SmMode {
    /// every apply is durable
    Persistent,
    /// only snapshots are durable
    Volatile,
}

pub struct NodeW {
    pub id: u64,
    pub inc: u32,
    pub group: Group,
    pub alive: bool,
    pub raft: Option<Raft>,
    pub mem: LogImg,
    pub durable: LogImg,
    pub wal: VecDeque<Wal>,
    pub sm: SmState,
    pub snap: Option<SnapRec>,
    pub sm_mode: SmMode,
    pub save_committed: bool,
    /// (event, last mem log id): changes of the last log id
    pub last_log_journal: Vec<(u64, Option<LogId>)>,
    /// event at which a durable log id was durably truncated
    pub durable_lost: BTreeMap<LogId, u64>,
    /// every log id that became durable here while the stored vote was that of the leader who created it
    pub direct: BTreeSet<LogId>,
    /// every log id that ever was durable here
    pub durable_ever: BTreeSet<LogId>,
    pub max_mem_last: Option<u64>,
    pub snap_offered: u64,
    /// 1 + largest index of an entry in an append request that reached this node
    pub append_offered: u64,
    /// last log ids of the snapshots that reached this node
    pub offered: BTreeSet<LogId>,
    pub inject: Option<(Io, u64)>,
    pub faulted: Option<(Io, u64, u64)>,
    pub poisoned: bool,
    pub crashed_once: bool,
    pub shutdown: bool,
    /// (deliver time, observe time, vote) of the last accepted append from a leader
    pub last_accept: Option<(u64, u64, Vote)>,
    /// leader votes whose lease was given up on this node by a transfer
    pub lease_broken: Vec<Vote>,
    /// time of the last user-triggered election (or transfer to this node)
    pub elect_triggered_at: Option<u64>,
    /// time of the last user-triggered election
    pub user_elect_at: Option<u64>,
    /// hand-over requests naming this node: (delivery time, leader vote, required next index, largest next index held since)
    pub named: Vec<(u64, Vote, u64, u64)>,
    /// leader votes under which this process sent hand-over requests
    pub handing: Vec<Vote>,
    pub purge_count: u64,
    pub sm_building: u32,
    pub metrics_prev: Option<Metrics>,
    /// appended entries stay unflushed until the next save_vote (pinned cases)
    pub hold_flush: bool,
    /// a crash loses every unflushed write (pinned cases)
    pub lose_all: bool,
    pub started_at: u64,
    /// mem vote history (event, vote)
    pub ext_runs: u64,
}

impl NodeW {
    pub fn new(id: u64) -> Self {
        NodeW {
            id,
            inc: 0,
            group: 0,
            alive: false,
            raft: None,
            mem: Default::default(),
            durable: Default::default(),
            wal: Default::default(),
            sm: Default::default(),
            snap: None,
            sm_mode: SmMode::Persistent,
            save_committed: false,
            last_log_journal: vec![(0, None)],
            durable_lost: Default::default(),
            direct: Default::default(),
            durable_ever: Default::default(),
            max_mem_last: None,
            snap_offered: 0,
            append_offered: 0,
            offered: Default::default(),
            inject: None,
            faulted: None,
            poisoned: false,
            crashed_once: false,
            shutdown: false,
            last_accept: None,
            lease_broken: vec![],
            hold_flush: false,
            lose_all: false,
            elect_triggered_at: None,
            user_elect_at: None,
            named: vec![],
            handing: vec![],
            purge_count: 0,
            sm_building: 0,
            metrics_prev: None,
            started_at: 0,
            ext_runs: 0,
        }
    }
    /// The last membership in the node's volatile log, else in its snapshot / state machine.
    pub fn effective_membership(&self) -> (Option<LogId>, Membership) {
        let mut best: (Option<LogId>, Membership) = (None, Default::default());
        let mut consider = |l: Option<LogId>, m: &Membership| {
            if nx(&l) > nx(&best.0) {
                best = (l, m.clone());
            }
        };
        if let Some(s) = &self.snap {
            consider(*s.meta.last_membership.log_id(), s.meta.last_membership.membership());
        }
        consider(*self.sm.membership.log_id(), self.sm.membership.membership());
        for e in self.mem.log.values().rev() {
            if let Payload::Membership(m) = &e.payload {
                consider(Some(e.log_id), m);
                break;
            }
        }
        best
    }
    pub fn snap_last(&self) -> Option<LogId> {
        self.snap.as_ref().and_then(|s| s.meta.last_log_id)
    }
}

pub struct RefEnt {
    pub log_id: LogId,
    pub ph: u64,
    pub op: u64,
    pub resp: Resp,
    pub hash: u64,
    pub membership: (Option<LogId>, Membership),
    /// upper bound of the vote under which the entry was committed
    pub bound: Vote,
    pub t: u64,
    pub ev: u64,
}

pub struct RegEnt {
    pub ph: u64,
    pub prev: Option<LogId>,
    pub creator: u64,
    pub op: u64,
    /// handed to the network by its creator
    pub sent: bool,
}

pub struct Call {
    pub what: String,
    pub node: u64,
    pub t: u64,
}

pub struct LeaderRec {
    pub vote: Vote,
    pub node: u64,
    pub ev: u64,
    pub t: u64,
}

#[derive(Clone, Debug)]
pub struct SimCfg {
    pub n_total: u64,
    pub store_delay: u64,
    pub limited_reads: bool,
    pub snap_pad: u64,
    pub hb: u64,
    pub el_min: u64,
    pub el_max: u64,
    pub net_v1: bool,
    pub unreach_hang: bool,
    pub backoff_ms: u64,
    pub lag_threshold: u64,
}

#[derive(Default)]
pub struct NetState {
    pub cut: BTreeSet<(u64, u64)>,
    pub loss: u64,
    pub dup: u64,
    pub delay_min_us: u64,
    pub delay_max_us: u64,
    pub late_permille: u64,
    pub partial_permille: u64,
    pub too_large_permille: u64,
    pub snap_fail_permille: u64,
    pub sent: u64,
    pub delivered: u64,
    pub lost: u64,
    pub dups: u64,
    pub group: Group,
}

pub struct World {
    pub cfg: SimCfg,
    pub nodes: BTreeMap<u64, NodeW>,
    pub viol: Vec<Viol>,
    pub trace: Vec<String>,
    pub tracing: bool,
    pub ev: u64,
    pub registry: BTreeMap<LogId, RegEnt>,
    pub reference: Vec<RefEnt>,
    pub all_memberships: BTreeMap<LogId, Membership>,
    /// grants delivered to the candidate, by (term,node)
    pub grants: BTreeMap<(u64, u64), BTreeSet<u64>>,
    /// durable votes a node granted (uncommitted), by node: term -> candidate
    pub granted_in_term: BTreeMap<(u64, u64), BTreeSet<u64>>,
    pub leaders: Vec<LeaderRec>,
    pub snaps: BTreeMap<String, (SnapshotMeta, u64)>,
    pub snap_seq: u64,
    pub net: NetState,
    pub classes: BTreeMap<String, u64>,
    pub applied_ops: BTreeMap<u64, LogId>,
    /// op ids ever seen in any log, with first log id
    pub logged_ops: BTreeMap<u64, LogId>,
    pub rejected_ops: BTreeMap<u64, u64>,
    pub resp_by_op: BTreeMap<u64, Resp>,
    pub faults_on: bool,
    /// (leader, vote, target): largest send time (ns) of an append RPC the target accepted, reply received
    pub answered_ok: BTreeMap<(u64, (u64, u64), u64), u64>,
    /// some storage operation was made to fail
    pub any_fault: bool,
    pub behaviour: u64,
    pub calls: BTreeMap<u64, Call>,
    pub next_call: u64,
    /// (started, in flight) membership changes
    pub changes: (u64, u64),
    pub acked_index: u64,
    pub read_index: u64,
    pub acks: u64,
    pub reads: u64,
    pub final_phase: bool,
    pub transfer_targets: Vec<(u64, u64, u64)>,
    pub lease_checks: u64,
    pub rule: Vec<LogId>,
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}

pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|x| f(x.borrow_mut().as_mut().expect("no world")))
}
pub fn try_w<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    WORLD.with(|x| x.borrow_mut().as_mut().map(f))
}
pub fn install(wd: World) {
    WORLD.with(|x| *x.borrow_mut() = Some(wd));
}
pub fn take() -> Option<World> {
    WORLD.with(|x| x.borrow_mut().take())
}

pub fn ms(ns: u64) -> f64 {
    (ns.saturating_sub(exec::BASE)) as f64 / 1e6
}

impl World {
    pub fn new(cfg: SimCfg, tracing: bool) -> Self {
        World {
            cfg,
            nodes: Default::default(),
            viol: vec![],
            trace: vec![],
            tracing,
            ev: 1,
            registry: Default::default(),
            reference: vec![],
            all_memberships: Default::default(),
            grants: Default::default(),
            granted_in_term: Default::default(),
            leaders: vec![],
            snaps: Default::default(),
            snap_seq: 0,
            net: Default::default(),
            classes: Default::default(),
            applied_ops: Default::default(),
            logged_ops: Default::default(),
            rejected_ops: Default::default(),
            resp_by_op: Default::default(),
            faults_on: true,
            answered_ok: Default::default(),
            any_fault: false,
            behaviour: 0,
            calls: Default::default(),
            next_call: 1,
            changes: (0, 0),
            acked_index: 0,
            read_index: 0,
            acks: 0,
            reads: 0,
            final_phase: false,
            transfer_targets: vec![],
            lease_checks: 0,
            rule: vec![],
        }
    }

    pub fn t(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            let now = ms(exec::now());
            if self.trace.len() < 20000 {
                self.trace.push(format!("{now:10.3} {s}"));
            }
        }
    }
    pub fn tick(&mut self) -> u64 {
        self.ev += 1;
        self.ev
    }
    pub fn class(&mut self, c: &str) {
        if let Some(x) = self.classes.get_mut(c) {
            *x += 1;
        } else {
            self.classes.insert(c.to_string(), 1);
        }
    }
    pub fn violate(&mut self, tags: &[&str], sig: &str, msg: String) {
        let m2 = msg.clone();
        self.t(|| format!("!! VIOLATION {tags:?} {sig}: {m2}"));
        let at = ms(exec::now());
        // A storage failure must leave every other guarantee intact.
        let mut tags: Vec<&str> = tags.to_vec();
        if self.any_fault && !tags.contains(&"C18") && tags.iter().any(|t| !matches!(*t, "C15" | "C16")) {
            tags.push("C18");
        }
        for t in tags {
            if self.viol.len() < 40 {
                self.viol.push(Viol { tag: t.to_string(), sig: sig.to_string(), msg: format!("t={at:.3}ms {msg}") });
            }
        }
    }
    pub fn beh(&mut self, x: u64) {
        self.behaviour = mix(self.behaviour, x);
    }
    pub fn n(&mut self, id: u64) -> &mut NodeW {
        self.nodes.get_mut(&id).expect("node")
    }

    /// In a quiet healthy cluster `n` leads and `to` is up to date: (voters, leader vote, last log).
    pub fn quiet_for_transfer(&self, n: u64, to: u64) -> Option<(Vec<u64>, Vote, Option<LogId>)> {
        let net = &self.net;
        if self.cfg.net_v1 || n == to || self.any_fault || self.cfg.store_delay > 1 || !net.cut.is_empty() {
            return None;
        }
        if net.loss + net.dup + net.late_permille + net.partial_permille + net.too_large_permille > 0 {
            return None;
        }
        let nd = self.nodes.get(&n)?;
        let v = nd.mem.vote?;
        let (_, m) = nd.effective_membership();
        let c = m.get_joint_config();
        if c.len() != 1 || !c[0].contains(&to) || !c[0].contains(&n) || c[0].len() > 3 || !v.committed || vote_node(&v) != Some(n) {
            return None;
        }
        let last = nd.mem.last();
        for x in &c[0] {
            let y = self.nodes.get(x)?;
            if !y.alive || y.shutdown || y.raft.is_none() || exec::is_paused(y.group) || y.mem.vote != Some(v) || y.mem.last() != last || y.poisoned {
                return None;
            }
            if *x != n {
                let (deliver, _, lv) = y.last_accept?;
                if lv != v || exec::now() > deliver + self.cfg.el_min * 500_000 {
                    return None;
                }
            }
        }
        Some((c[0].iter().copied().collect(), v, last))
    }

    /// A hand-over request is sent by `from`.
    pub fn transfer_sent(&mut self, from: u64, v: &Vote, to: u64, last: Option<LogId>) {
        self.class("transfer_rpc");
        let nd = &self.nodes[&from];
        let mine = nd.mem.vote == Some(*v);
        let mut bad = vec![];
        if vote_node(v) != Some(from) || !v.committed {
            bad.push(("transfer-without-leadership", format!("n{from} sends a hand-over request under {v}")));
        }
        if mine {
            let (l, m) = nd.effective_membership();
            if to == from || !is_voter(&m, to) {
                bad.push(("transfer-to-non-voter", format!("n{from} hands over to n{to}, config {}@{}", mem_str(&m), ls(&l))));
            }
            let own = nd.mem.last();
            if last != own {
                bad.push(("transfer-last-log", format!("n{from} hands over with last log {}, its log ends at {}", ls(&last), ls(&own))));
            }
            self.n(from).handing.push(*v);
        }
        for (s, m) in bad {
            self.violate(&["C23"], s, m);
        }
    }

    /// A hand-over request from leader vote `v` reached node n (`done`: the handler has answered).
    pub fn note_transfer(&mut self, n: u64, v: &Vote, to: u64, last: Option<LogId>, done: bool) {
        let now = exec::now();
        let nd = self.n(n);
        if let Some(x) = nd.mem.vote {
            if !(*v >= x) {
                // from a leader this node no longer follows
                self.class("transfer_stale");
                return;
            }
        }
        let nd = self.n(n);
        if !nd.lease_broken.contains(v) {
            nd.lease_broken.push(*v);
        }
        if to == n {
            nd.elect_triggered_at = Some(now);
            if !done {
                let has = nx(&nd.mem.last()).max(nx(&nd.snap_last()));
                nd.named.push((now, *v, nx(&last), has));
                if has < nx(&last) {
                    self.class("transfer_target_behind");
                }
            }
        }
    }

    // ------------------------------------------------------------ durability queries

    pub fn durable_has(&self, n: u64, l: &LogId) -> bool {
        let nd = &self.nodes[&n];
        if let Some(e) = nd.durable.log.get(&l.index) {
            if e.log_id == *l {
                return true;
            }
        }
        if nx(&nd.snap_last()) > l.index {
            if let Some(r) = self.reference.get(l.index as usize) {
                return r.log_id == *l;
            }
        }
        false
    }
    /// durable now, or durable at some moment after event `since`
    pub fn durable_since(&self, n: u64, l: &LogId, since: u64) -> bool {
        if self.durable_has(n, l) {
            return true;
        }
        self.nodes[&n].durable_lost.get(l).map(|e| *e >= since).unwrap_or(false)
    }

    /// Is `l` durably on a quorum of a config that may be in force for committing it?
    pub fn quorum_durable(&self, l: &LogId, own: Option<&Membership>) -> Result<(), String> {
        let mut holders: BTreeSet<u64> = BTreeSet::new();
        for id in self.nodes.keys() {
            if self.durable_has(*id, l) {
                holders.insert(*id);
            }
        }
        let mut tried = vec![];
        let mut base: Option<&Membership> = own;
        if base.is_none() {
            if let Some(r) = self.reference.get(l.index as usize) {
                base = Some(&r.membership.1);
            } else {
                base = self.reference.last().map(|r| &r.membership.1);
            }
        }
        if let Some(m) = base {
            if is_quorum(m, |x| holders.contains(&x)) {
                return Ok(());
            }
            tried.push(mem_str(m));
        }
        for (k, m) in &self.all_memberships {
            if k.index > l.index || (base.is_none() && k.index <= l.index) {
                if is_quorum(m, |x| holders.contains(&x)) {
                    return Ok(());
                }
                tried.push(mem_str(m));
            }
        }
        Err(format!("durable holders of {l}: {holders:?}, candidate configs: {tried:?}"))
    }

    /// Membership in force at `l` in node n's own lineage: last membership entry with index <= l.index.
    fn lineage_membership(&self, n: u64, l: &LogId) -> Option<Membership> {
        let nd = &self.nodes[&n];
        for e in nd.mem.log.values().rev() {
            if e.log_id.index <= l.index {
                if let Payload::Membership(m) = &e.payload {
                    return Some(m.clone());
                }
            }
        }
        // below the first log: the reference
        let first = nd.mem.log.keys().next().copied().unwrap_or(u64::MAX);
        if first > 0 {
            let i = (first.min(self.reference.len() as u64)).checked_sub(1)?;
            return self.reference.get(i as usize).map(|r| r.membership.1.clone());
        }
        None
    }

    // ------------------------------------------------------------ log storage operations

    pub fn io_fault(&mut self, n: u64, k: Io) -> bool {
        let now = exec::now();
        let ev = self.tick();
        let nd = self.n(n);
        if nd.faulted.is_some() {
            // a poisoned store keeps failing writes, else it was a single failure
            return nd.poisoned && !matches!(k, Io::ReadLog | Io::GetSnapshot);
        }
        if let Some((ik, c)) = nd.inject {
            if ik == k {
                if c == 0 {
                    nd.inject = None;
                    nd.faulted = Some((k, ev, now));
                    nd.poisoned = exec::rnd(2) == 0;
                    self.any_fault = true;
                    self.class(&format!("fault:{k:?}"));
                    self.t(|| format!("n{n} STORAGE FAULT at {k:?}"));
                    return true;
                }
                nd.inject = Some((ik, c - 1));
            }
        }
        false
    }

    fn note_last_log(&mut self, n: u64) {
        let ev = self.tick();
        let nd = self.n(n);
        let last = nd.mem.last();
        let has = nx(&last);
        for x in nd.named.iter_mut() {
            x.3 = x.3.max(has);
        }
        if nd.last_log_journal.last().map(|x| x.1) != Some(last) {
            nd.last_log_journal.push((ev, last));
        }
        if nx(&last) > nd.max_mem_last.map(|x| x + 1).unwrap_or(0) {
            nd.max_mem_last = idx(&last);
        }
    }

    pub fn begin_save_vote(&mut self, n: u64, v: &Vote) {
        let prev = self.n(n).mem.vote;
        self.t(|| format!("n{n} save_vote {v} (was {})", prev.map(|x| x.to_string()).unwrap_or("-".into())));
        self.beh(mix(mix(n, vote_term(v)), vote_node(v).unwrap_or(99) * 2 + v.committed as u64));
        if let Some(p) = prev {
            let ok = matches!(v.partial_cmp(&p), Some(std::cmp::Ordering::Greater) | Some(std::cmp::Ordering::Equal));
            if !ok {
                self.violate(&["C08", "C01", "C10"], "vote-decreased", format!("n{n} replaces stored vote {p} by {v}"));
            }
        }
        if !v.committed && vote_node(v) == Some(n) && prev.map(|p| vkey(&p) != vkey(v)).unwrap_or(true) {
            let (l, m) = self.nodes[&n].effective_membership();
            self.class("campaign");
            if !is_voter(&m, n) {
                self.violate(&["C22", "C01"], "non-voter-campaigns", format!("n{n} campaigns under {v} but is no voter in {}@{}", mem_str(&m), ls(&l)));
            }
        }
        // a node that recently accepted a leader neither campaigns nor grants, unless told to
        if !v.committed && prev.map(|p| vkey(&p) != vkey(v)).unwrap_or(true) {
            let now = exec::now();
            let lease = self.cfg.el_max * 1_000_000;
            let nd = &self.nodes[&n];
            let own = vote_node(v) == Some(n);
            let user = nd.user_elect_at.is_some();
            let broken = nd.lease_broken.clone();
            let named = nd.named.clone();
            let snap_offered = nd.snap_offered;
            if let Some((deliver, _, lv)) = nd.last_accept {
                let (_, m) = nd.effective_membership();
                let multi = m.get_joint_config().iter().flatten().collect::<BTreeSet<_>>().len() > 1;
                let told = own && nd.elect_triggered_at.map(|x| now < x + 10_000_000_000).unwrap_or(false);
                self.lease_checks += 1;
                if now >= deliver + lease {
                    self.class("vote_change_after_lease");
                } else if broken.contains(&lv) {
                    self.class("vote_change_lease_given_up");
                    if own && multi && !told && now < deliver + self.cfg.el_min * 1_000_000 {
                        let m = format!(
                            "n{n} campaigns under {v} {:.1} ms after accepting leader {lv}, which hands over to another node (minimal election timeout {} ms)",
                            (now - deliver) as f64 / 1e6,
                            self.cfg.el_min
                        );
                        self.violate(&["C23", "C14"], "campaigns-without-being-named", m);
                    } else if own && multi && !user && now < deliver + self.cfg.el_min * 1_000_000 {
                        // only a hand-over request can be the reason
                        let wait = self.cfg.el_min * 1_000_000;
                        let ok = named.is_empty() || snap_offered > 0 || named.iter().any(|x| now >= x.0 + wait || x.3 >= x.2);
                        self.class("campaign_by_transfer");
                        if !ok {
                            let m = format!("n{n} campaigns under {v} for a hand-over before holding the log of the leader: {named:?}");
                            self.violate(&["C23"], "transfer-campaigns-behind", m);
                        }
                    }
                } else if told {
                    self.class("vote_change_told");
                } else if multi || !own {
                    let what = if own { "campaigns" } else { "grants" };
                    let m = format!("n{n} {what} {v} only {:.1} ms after accepting leader {lv} (lease {} ms)", (now - deliver) as f64 / 1e6, self.cfg.el_max);
                    self.violate(&["C14"], "lease-violated", m);
                }
            }
        }
        if let Some((_, _, lv)) = self.nodes[&n].last_accept {
            if vkey(&lv) != vkey(v) {
                self.n(n).last_accept = None;
            }
        }
        let won = v.committed
            && vote_node(v) == Some(n)
            && prev.map(|p| vkey(&p) == vkey(v) && !p.committed).unwrap_or(true);
        if won {
            self.on_leader_established(n, v);
        }
        let nd = self.n(n);
        nd.mem.vote = Some(*v);
        nd.wal.push_back(Wal { op: WalOp::Vote(*v), cb: None });
    }

    fn on_leader_established(&mut self, n: u64, v: &Vote) {
        self.t(|| format!("n{n} *** LEADER under {v}"));
        self.class("leader_established");
        let ev = self.tick();
        let now = exec::now();
        // quorum of delivered grants
        let (mlog, m) = self.nodes[&n].effective_membership();
        let mut g = self.grants.get(&vkey(v)).cloned().unwrap_or_default();
        let own = self.nodes[&n].durable.vote;
        let self_ok = own.map(|o| o >= uncommitted(v)).unwrap_or(false);
        if self_ok {
            g.insert(n);
        }
        // A node that is (in its own view) the only voter needs nobody else.
        let sole = m.get_joint_config().iter().all(|c| c.len() == 1 && c.contains(&n)) && !m.get_joint_config().is_empty();
        if sole {
            g.insert(n);
        }
        if !is_quorum(&m, |x| g.contains(&x)) || m.get_joint_config().is_empty() {
            self.violate(
                &["C01", "C22"],
                "leader-without-quorum",
                format!("n{n} leads under {v} with grants {g:?} (own vote durable: {self_ok}) in config {}@{}", mem_str(&m), ls(&mlog)),
            );
        }
        if !is_voter(&m, n) {
            self.violate(&["C22", "C01"], "non-voter-leader", format!("n{n} leads under {v} but is no voter in {}", mem_str(&m)));
        }
        for l in &self.leaders {
            let same = if cfg!(feature = "stl") { vote_term(&l.vote) == vote_term(v) } else { vkey(&l.vote) == vkey(v) };
            if same && l.node != n {
                let (a, b) = (l.node, l.vote);
                self.violate(&["C01", "C26"], "two-leaders", format!("n{n} leads under {v} but n{a} led under {b}"));
                break;
            }
        }
        // leader completeness
        let mut missing = None;
        for r in &self.reference {
            if r.bound.partial_cmp(v) == Some(std::cmp::Ordering::Less) {
                let nd = &self.nodes[&n];
                let i = r.log_id.index;
                let has = match nd.mem.log.get(&i) {
                    Some(e) => e.log_id == r.log_id,
                    None => i < nx(&nd.mem.purged) || i < nx(&nd.snap_last()),
                };
                if !has {
                    missing = Some((r.log_id, r.bound));
                    break;
                }
            }
        }
        if let Some((l, b)) = missing {
            self.violate(&["C03", "C01", "C06"], "leader-misses-committed", format!("n{n} leads under {v} without entry {l} applied elsewhere (commit vote <= {b})"));
        }
        self.leaders.push(LeaderRec { vote: *v, node: n, ev, t: now });
    }

    pub fn append_mem(&mut self, n: u64, entries: Vec<Entry>, cb: Option<IOFlushed<TC>>) {
        for e in &entries {
            let last = self.nodes[&n].mem.last();
            if e.log_id.index != nx(&last) {
                self.violate(&["C02", "C25"], "append-hole", format!("n{n} appends {} after {}", e.log_id, ls(&last)));
            }
            if Some(e.log_id) <= last && e.log_id.index == nx(&last) {
                self.violate(&["C02"], "log-id-not-increasing", format!("n{n} appends {} after {}", e.log_id, ls(&last)));
            }
            let ph = payload_hash(&e.payload);
            let prev = self.nodes[&n].mem.prev_of(e.log_id.index);
            let op = if let Payload::Normal(q) = &e.payload { q.op } else { 0 };
            match self.registry.get(&e.log_id) {
                Some(r) => {
                    if r.ph != ph {
                        let m = format!("n{n} holds {} with a payload different from the one n{} created", e.log_id, r.creator);
                        self.violate(&["C02", "C05"], "same-log-id-different-entry", m);
                    } else if let Some(p) = prev {
                        if p != r.prev {
                            let m = format!("n{n}: entry before {} is {}, elsewhere {}", e.log_id, ls(&p), ls(&r.prev));
                            self.violate(&["C02", "C25"], "same-log-id-different-prev", m);
                        }
                    }
                }
                None => {
                    let mv = self.nodes[&n].mem.vote;
                    let init = e.log_id.index == 0 && e.log_id.term() == 0;
                    if !init {
                        let ok = match mv {
                            Some(v) => {
                                v.committed
                                    && vote_node(&v) == Some(n)
                                    && vote_term(&v) == e.log_id.term()
                                    && (cfg!(feature = "stl") || e.log_id.leader_id_node() == n)
                            }
                            None => false,
                        };
                        if !ok {
                            let m = format!("n{n} creates entry {} while its stored vote is {:?}", e.log_id, mv.map(|x| x.to_string()));
                            self.violate(&["C10", "C01", "C25"], "entry-created-without-leadership", m);
                        }
                        if mv.map(|v| self.nodes[&n].handing.contains(&v)).unwrap_or(false) {
                            let m = format!("n{n} creates entry {} after it has asked the others to take over", e.log_id);
                            self.violate(&["C23"], "write-after-transfer", m);
                        }
                        if let Some(d) = self.nodes[&n].durable.vote {
                            let own = mv.unwrap_or(d);
                            if uncommitted(&own) > d {
                                let m = format!("n{n} creates {} under {own}, durable vote is {d}", e.log_id);
                                self.violate(&["C08"], "leads-before-vote-durable", m);
                            }
                        }
                    }
                    if op != 0 {
                        if let Some(old) = self.logged_ops.get(&op) {
                            let m = format!("op {op} logged at {old} and again as {}", e.log_id);
                            self.violate(&["C06", "C24"], "op-logged-twice", m);
                        }
                        self.logged_ops.insert(op, e.log_id);
                        if let Some(ev) = self.rejected_ops.get(&op) {
                            let m = format!("op {op} was refused (event {ev}) before any log held it, yet is logged as {}", e.log_id);
                            self.violate(&["C06"], "refused-op-logged", m);
                        }
                    }
                    self.registry.insert(e.log_id, RegEnt { ph, prev: prev.unwrap_or(None), creator: n, op, sent: false });
                    if let Payload::Membership(m) = &e.payload {
                        self.on_membership_created(n, e.log_id, m.clone());
                    }
                }
            }
            self.n(n).mem.log.insert(e.log_id.index, e.clone());
            self.beh(mix(n, lid_hash(&e.log_id)));
        }
        if self.tracing {
            let s: Vec<String> = entries.iter().map(entry_str).collect();
            self.t(|| format!("n{n} append {}", s.join(" ")));
        }
        self.note_last_log(n);
        self.n(n).wal.push_back(Wal { op: WalOp::Append(entries), cb });
    }

    fn on_membership_created(&mut self, n: u64, l: LogId, m: Membership) {
        self.class("membership_entry");
        // the config before it in this node's log
        let prev: Option<(LogId, Membership)> = {
            let nd = &self.nodes[&n];
            let mut found = None;
            for e in nd.mem.log.values().rev() {
                if e.log_id.index < l.index {
                    if let Payload::Membership(p) = &e.payload {
                        found = Some((e.log_id, p.clone()));
                        break;
                    }
                }
            }
            if found.is_none() {
                let (pl, pm) = nd.effective_membership();
                if let Some(pl) = pl {
                    found = Some((pl, pm));
                }
            }
            found
        };
        if let Some((pl, p)) = prev {
            if !coherent(&p, &m) {
                self.violate(&["C11", "D01"], "non-overlapping-configs", format!("n{n} logs config {} at {l} right after {} at {pl}: their quorums need not intersect", mem_str(&m), mem_str(&p)));
            }
            // one at a time: the previous config must be committed (durably on a quorum) when the next is proposed
            if let Err(e) = self.quorum_durable_cfg(&pl, &p) {
                self.violate(&["C11"], "overlapping-change", format!("n{n} proposes config {} at {l} while {} at {pl} is not committed: {e}", mem_str(&m), mem_str(&p)));
            }
        }
        for c in m.get_joint_config() {
            if c.is_empty() {
                self.violate(&["C11", "D02"], "empty-voter-set", format!("config {} at {l}", mem_str(&m)));
            }
            for v in c {
                if m.get_node(v).is_none() {
                    self.violate(&["C11", "D02"], "voter-without-node", format!("config {} at {l}: voter {v}", mem_str(&m)));
                }
            }
        }
        self.all_memberships.insert(l, m);
    }

    fn quorum_durable_cfg(&self, l: &LogId, m: &Membership) -> Result<(), String> {
        let holders: BTreeSet<u64> = self.nodes.keys().copied().filter(|x| self.durable_has(*x, l)).collect();
        if is_quorum(m, |x| holders.contains(&x)) {
            Ok(())
        } else {
            Err(format!("durable on {holders:?}"))
        }
    }

    pub fn truncate_mem(&mut self, n: u64, l: &LogId) {
        self.class("truncate");
        self.t(|| format!("n{n} truncate from {l}"));
        self.beh(mix(n + 77, lid_hash(l)));
        let nd = &self.nodes[&n];
        let mut bad = vec![];
        if l.index < nx(&nd.sm.applied) {
            bad.push((vec!["C05", "C03", "C25"], "truncate-applied", format!("n{n} truncates from {l}, applied {}", ls(&nd.sm.applied))));
        }
        if l.index < nx(&nd.mem.purged) {
            bad.push((vec!["C02", "C13"], "truncate-purged", format!("n{n} truncates from {l}, purged {}", ls(&nd.mem.purged))));
        }
        for (i, e) in nd.mem.log.range(l.index..) {
            if let Some(r) = self.reference.get(*i as usize) {
                if r.log_id == e.log_id {
                    if let Some(v) = nd.mem.vote {
                        // A log on a conflicting branch is replaced, from the last known commit on, by a snapshot that
                        // covers the committed prefix of it.
                        let replaced = nd.offered.iter().any(|o| *i <= o.index && nd.mem.log.get(&o.index).map(|x| x.log_id != *o).unwrap_or(false));
                        if v >= r.bound && !replaced {
                            bad.push((vec!["C03", "C06"], "committed-entry-truncated", format!("n{n} (vote {v}) truncates {} which was applied elsewhere under vote <= {}", e.log_id, r.bound)));
                        }
                    }
                }
            }
        }
        for (t, s, m) in bad {
            self.violate(&t, s, m);
        }
        let nd = self.n(n);
        nd.mem.log.split_off(&l.index);
        nd.wal.push_back(Wal { op: WalOp::Truncate(l.index), cb: None });
        self.note_last_log(n);
    }

    pub fn purge_mem(&mut self, n: u64, l: &LogId) {
        self.class("purge");
        self.t(|| format!("n{n} purge upto {l}"));
        self.beh(mix(n + 99, lid_hash(l)));
        let nd = &self.nodes[&n];
        if nx(&nd.snap_last()) <= l.index {
            let m = format!("n{n} purges upto {l} but its durable snapshot is at {}", ls(&nd.snap_last()));
            self.violate(&["C13", "C09", "C12"], "purge-beyond-snapshot", m);
        }
        let nd = &self.nodes[&n];
        if let Some(e) = nd.mem.log.get(&l.index) {
            // (while it starts, a node drops stale logs that its state machine has superseded)
            let startup = nd.raft.is_none() && nd.sm.applied == Some(*l);
            if e.log_id != *l && !startup {
                let m = format!("n{n} purges upto {l} but holds {}", e.log_id);
                self.violate(&["C13", "C02", "C12"], "purge-mismatch", m);
            }
        }
        let nd = self.n(n);
        nd.purge_count += 1;
        if nx(&nd.mem.purged) <= l.index {
            let keep = nd.mem.log.split_off(&(l.index + 1));
            nd.mem.log = keep;
            nd.mem.purged = Some(*l);
            nd.wal.push_back(Wal { op: WalOp::Purge(*l), cb: None });
        }
        // what remains must follow the purge point
        let nd = &self.nodes[&n];
        if let Some((i, e)) = nd.mem.log.iter().next() {
            if *i != l.index + 1 && nd.mem.purged == Some(*l) {
                let m = format!("n{n}: log starts at {} after purging upto {l}", e.log_id);
                self.violate(&["C02", "C13"], "hole-after-purge", m);
            }
        }
        self.note_last_log(n);
    }

    pub fn save_committed_mem(&mut self, n: u64, c: &Option<LogId>) {
        if let Some(l) = c {
            if let Some(r) = self.reference.get(l.index as usize) {
                if r.log_id != *l {
                    let m = format!("n{n} saves committed {l}, but index {} was applied elsewhere as {}", l.index, r.log_id);
                    self.violate(&["C05", "C04", "C25"], "committed-divergence", m);
                }
            } else {
                self.check_commit_evidence(n, l, "save_committed");
            }
        }
        let nd = self.n(n);
        nd.mem.committed = *c;
        nd.wal.push_back(Wal { op: WalOp::Committed(*c), cb: None });
    }

    /// The log ids committed by the rule: index -> log id. Extended on demand.
    /// An entry is committed once a quorum durably accepted it, or an entry after it on the same branch, from the
    /// very leader that created that entry.
    fn rule_committed(&mut self, l: &LogId) -> bool {
        if let Some(x) = self.rule.get(l.index as usize) {
            return x == l;
        }
        let cands: Vec<LogId> = self.registry.keys().filter(|j| j.index >= l.index).copied().collect();
        for j in cands {
            let holders: BTreeSet<u64> = self.nodes.values().filter(|x| x.direct.contains(&j)).map(|x| x.id).collect();
            if holders.is_empty() {
                continue;
            }
            // the branch that ends with j
            let mut branch = vec![j];
            let mut base = self.all_memberships.get(&j);
            let from = self.rule.len() as u64;
            let mut at = j;
            while at.index > 0 && (at.index > from || base.is_none()) {
                let Some(Some(p)) = self.registry.get(&at).map(|r| r.prev) else { break };
                at = p;
                if at.index >= from {
                    branch.push(at);
                }
                if base.is_none() {
                    base = self.all_memberships.get(&at);
                }
            }
            let complete = branch.last().map(|x| x.index) == Some(from.min(j.index)) && branch.contains(l);
            if !complete {
                continue;
            }
            let quorum = base.map(|m| is_quorum(m, |x| holders.contains(&x))).unwrap_or(false)
                || self.all_memberships.iter().any(|(k, m)| k.index > j.index && is_quorum(m, |x| holders.contains(&x)));
            if quorum {
                branch.reverse();
                self.rule.extend(branch);
                return true;
            }
        }
        false
    }

    fn check_commit_evidence(&mut self, n: u64, l: &LogId, what: &str) {
        if !self.rule_committed(l) {
            let d: Vec<String> = self.nodes.values().filter(|x| x.direct.contains(l)).map(|x| format!("n{}", x.id)).collect();
            self.violate(
                &["C04", "C03"],
                "commit-rule",
                format!("n{n} {what} {l}, but no leader got an entry of its own at or after it accepted by a quorum (accepted from its creator: {d:?})"),
            );
        }
        let own = self.lineage_membership(n, l);
        if let Err(e) = self.quorum_durable(l, own.as_ref()) {
            self.violate(&["C04", "C09", "C22"], "committed-without-durable-quorum", format!("n{n} {what} {l}: {e}"));
        }
    }

    /// Make the first `count` queued writes durable. Returns callbacks to fire.
    pub fn flush(&mut self, n: u64, count: usize) -> Vec<IOFlushed<TC>> {
        let ev = self.tick();
        let nd = self.n(n);
        let mut cbs = vec![];
        let count = count.min(nd.wal.len());
        for _ in 0..count {
            let x = nd.wal.pop_front().unwrap();
            Self::apply_durable(nd, x.op, ev);
            if let Some(cb) = x.cb {
                cbs.push(cb);
            }
        }
        cbs
    }

    fn apply_img(img: &mut LogImg, op: &WalOp) {
        match op {
            WalOp::Vote(v) => img.vote = Some(*v),
            WalOp::Append(es) => {
                for e in es {
                    img.log.insert(e.log_id.index, e.clone());
                }
            }
            WalOp::Truncate(i) => {
                img.log.split_off(i);
            }
            WalOp::Purge(l) => {
                img.log = img.log.split_off(&(l.index + 1));
                img.purged = Some(*l);
            }
            WalOp::Committed(c) => img.committed = *c,
        }
    }

    fn apply_durable(nd: &mut NodeW, op: WalOp, ev: u64) {
        match op {
            WalOp::Vote(v) => nd.durable.vote = Some(v),
            WalOp::Append(es) => {
                for e in es {
                    nd.durable_lost.remove(&e.log_id);
                    nd.durable_ever.insert(e.log_id);
                    if let Some(v) = &nd.durable.vote {
                        let same = cfg!(feature = "stl") || vote_node(v) == Some(e.log_id.leader_id_node());
                        if vote_term(v) == e.log_id.term() && same {
                            nd.direct.insert(e.log_id);
                        }
                    }
                    nd.durable.log.insert(e.log_id.index, e);
                }
            }
            WalOp::Truncate(i) => {
                let gone = nd.durable.log.split_off(&i);
                for e in gone.values() {
                    nd.durable_lost.insert(e.log_id, ev);
                }
            }
            WalOp::Purge(l) => {
                let keep = nd.durable.log.split_off(&(l.index + 1));
                nd.durable.log = keep;
                nd.durable.purged = Some(l);
            }
            WalOp::Committed(c) => nd.durable.committed = c,
        }
    }

    /// The machine of node n loses power: a prefix of the queued writes survives.
    pub fn crash_disk(&mut self, n: u64) {
        let ev = self.tick();
        let World { nodes, registry, .. } = self;
        let nd = nodes.get_mut(&n).unwrap();
        let len = nd.wal.len();
        let mut keep = if len == 0 { 0 } else { exec::rnd(len as u64 + 1) as usize };
        // Would the node come back as leader under its stored vote?  Then keep every entry it already sent
        // (losing them is the documented finding F3, exercised by its own pinned case).
        let v_after = |k: usize, nd: &NodeW| {
            let mut v = nd.durable.vote;
            for x in nd.wal.iter().take(k) {
                if let WalOp::Vote(y) = &x.op {
                    v = Some(*y);
                }
            }
            v
        };
        let own_leader = |v: Option<Vote>| v.map(|v| v.committed && vote_node(&v) == Some(nd.id)).unwrap_or(false);
        let mut min_keep = 0;
        if own_leader(v_after(keep, nd)) || own_leader(nd.mem.vote) {
            for (i, x) in nd.wal.iter().enumerate() {
                if let WalOp::Append(es) = &x.op {
                    if es.iter().any(|e| registry.get(&e.log_id).map(|r| r.sent && r.creator == n).unwrap_or(false)) {
                        min_keep = i + 1;
                    }
                }
            }
        }
        keep = keep.max(min_keep);
        if nd.lose_all {
            keep = 0;
        }
        let mut torn: Option<Vec<Entry>> = None;
        if keep < len {
            if let WalOp::Append(es) = &nd.wal[keep].op {
                if !nd.lose_all && es.len() > 1 && exec::rnd(2) == 0 {
                    let k = 1 + exec::rnd(es.len() as u64 - 1) as usize;
                    torn = Some(es[..k].to_vec());
                }
            }
        }
        // A state machine more recent than its log is recovered from by comparing last log ids; the storage is assumed
        // not to come back with a *greater* last log id on a branch that the state machine contradicts.
        let mut img = nd.durable.clone();
        for x in nd.wal.iter().take(keep) {
            Self::apply_img(&mut img, &x.op);
        }
        if let Some(es) = &torn {
            Self::apply_img(&mut img, &WalOp::Append(es.clone()));
        }
        let applied = if nd.sm_mode == SmMode::Volatile { nd.snap_last() } else { nd.sm.applied };
        if let Some(ap) = applied {
            let differs = img.log.get(&ap.index).map(|e| e.log_id != ap).unwrap_or(false);
            if differs && img.last() >= Some(ap) {
                keep = len;
                torn = None;
            }
        }
        for _ in 0..keep {
            let x = nd.wal.pop_front().unwrap();
            Self::apply_durable(nd, x.op, ev);
        }
        if let Some(es) = torn {
            Self::apply_durable(nd, WalOp::Append(es), ev);
        }
        let lost: Vec<LogId> = nd
            .mem
            .log
            .values()
            .filter(|e| nd.durable.log.get(&e.log_id.index).map(|d| d.log_id != e.log_id).unwrap_or(true))
            .map(|e| e.log_id)
            .collect();
        let dropped = nd.wal.len();
        nd.wal.clear();
        nd.mem = nd.durable.clone();
        nd.alive = false;
        nd.raft = None;
        nd.crashed_once = true;
        nd.inject = None;
        nd.faulted = None;
        nd.last_accept = None;
        nd.lease_broken.clear();
        nd.elect_triggered_at = None;
        nd.user_elect_at = None;
        nd.named.clear();
        nd.handing.clear();
        nd.metrics_prev = None;
        nd.sm_building = 0;
        if nd.sm_mode == SmMode::Volatile {
            nd.sm = nd.snap.as_ref().map(|s| s.state.clone()).unwrap_or_default();
        }
        // entries that existed only in this node's volatile memory never happened
        for l in &lost {
            let only_here = self.registry.get(l).map(|r| r.creator == n && !r.sent).unwrap_or(false)
                && !self.nodes.values().any(|o| {
                    let has = |x: &LogImg| x.log.get(&l.index).map(|e| e.log_id == *l).unwrap_or(false);
                    has(&o.mem) || has(&o.durable)
                });
            if only_here {
                let r = self.registry.remove(l).unwrap();
                if r.op != 0 {
                    self.logged_ops.remove(&r.op);
                }
                self.all_memberships.remove(l);
            }
        }
        self.note_last_log(n);
        if dropped > 0 {
            self.class("crash_lost_writes");
        }
        let (d, nl) = (dropped, lost.len());
        self.t(|| format!("n{n} CRASH: {d} queued writes lost ({nl} entries)"));
    }

    // ------------------------------------------------------------ state machine

    pub fn sm_apply(&mut self, n: u64, entries: &[Entry]) -> Vec<Resp> {
        let mut out = vec![];
        for e in entries {
            let i = e.log_id.index;
            let applied = self.nodes[&n].sm.applied;
            if i != nx(&applied) {
                self.violate(&["C05", "C12", "C19", "C25"], "apply-gap", format!("n{n} applies {} after {}", e.log_id, ls(&applied)));
            }
            let ph = payload_hash(&e.payload);
            let known = self.reference.get(i as usize).map(|r| (r.log_id, r.ph, r.hash));
            match known {
                Some((l, p, _)) => {
                    if l != e.log_id || p != ph {
                        self.violate(&["C05", "C03", "C06", "C04"], "apply-divergence", format!("n{n} applies {} at index {i}, elsewhere {l}", entry_str(e)));
                    }
                }
                None => self.check_commit_evidence(n, &e.log_id, "applies"),
            }
            let r = self.n(n).sm.apply_one(e);
            let h = self.nodes[&n].sm.hash;
            match known {
                Some((_, _, rh)) => {
                    if rh != h {
                        self.violate(&["C05", "C12", "C19"], "state-divergence", format!("n{n} state after {} differs from the first node that applied it", e.log_id));
                    }
                }
                None => {
                    if i as usize == self.reference.len() {
                        let op = r.op;
                        if op != 0 {
                            if let Some(o) = self.applied_ops.get(&op) {
                                let m = format!("op {op} applied at {o} and at {}", e.log_id);
                                self.violate(&["C06", "C05"], "op-applied-twice", m);
                            }
                            self.applied_ops.insert(op, e.log_id);
                            self.resp_by_op.insert(op, r.clone());
                        }
                        let sm = &self.nodes[&n].sm;
                        let membership = (*sm.membership.log_id(), sm.membership.membership().clone());
                        let bound = self.nodes[&n].mem.vote.unwrap_or_default();
                        let (t, ev) = (exec::now(), self.tick());
                        self.reference.push(RefEnt { log_id: e.log_id, ph, op, resp: r.clone(), hash: h, membership, bound, t, ev });
                    }
                }
            }
            out.push(r);
        }
        if let Some(e) = entries.last() {
            let l = e.log_id;
            self.beh(mix(n + 123, lid_hash(&l)));
            self.t(|| format!("n{n} applied upto {l}"));
        }
        out
    }

    pub fn build_snapshot_from(&mut self, n: u64, mut st: SmState) -> SnapRec {
        self.snap_seq += 1;
        let id = format!("{}-{}-{}", st.applied.map(|x| x.to_string()).unwrap_or("none".into()), n, self.snap_seq);
        let pad = if self.cfg.snap_pad > 0 { exec::rnd(self.cfg.snap_pad) } else { 0 };
        st.pad = (0..pad).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        let bytes = serde_json::to_vec(&st).unwrap();
        st.pad.clear();
        let meta = SnapshotMeta { last_log_id: st.applied, last_membership: st.membership.clone(), snapshot_id: id.clone() };
        self.snaps.insert(id, (meta.clone(), bytes_hash(&bytes)));
        self.class("snapshot_built");
        let l = ls(&st.applied);
        self.t(|| format!("n{n} built snapshot at {l} ({} bytes)", bytes.len()));
        SnapRec { meta, bytes: Arc::new(bytes), state: st }
    }

    pub fn adopt_snapshot(&mut self, n: u64, rec: SnapRec) {
        let nd = self.n(n);
        if nx(&rec.meta.last_log_id) > nx(&nd.snap_last()) || nd.snap.is_none() {
            nd.snap = Some(rec);
        }
    }

    /// Returns the parsed state when the bytes are acceptable.
    pub fn sm_install(&mut self, n: u64, meta: &SnapshotMeta, bytes: Vec<u8>) -> Option<()> {
        self.class("snapshot_installed");
        let l = ls(&meta.last_log_id);
        self.t(|| format!("n{n} install snapshot {} at {l}", meta.snapshot_id));
        match self.snaps.get(&meta.snapshot_id) {
            None => {
                self.violate(&["C12", "C21"], "unknown-snapshot", format!("n{n} is given snapshot id {} nobody built", meta.snapshot_id));
            }
            Some((m, h)) => {
                if m != meta {
                    let s = format!("n{n} is given snapshot {} with meta {meta}, built as {m}", meta.snapshot_id);
                    self.violate(&["C12", "C21"], "snapshot-meta-changed", s);
                } else if *h != bytes_hash(&bytes) {
                    let s = format!("n{n} is given snapshot {} with different bytes ({} bytes)", meta.snapshot_id, bytes.len());
                    self.violate(&["C21", "C12"], "snapshot-bytes-changed", s);
                }
            }
        }
        let applied = self.nodes[&n].sm.applied;
        if nx(&meta.last_log_id) <= nx(&applied) && nx(&applied) > 0 {
            self.violate(&["C12", "C05", "C25"], "snapshot-rolls-back", format!("n{n} at {} is given snapshot at {}", ls(&applied), ls(&meta.last_log_id)));
        }
        let st: SmState = serde_json::from_slice(&bytes).ok()?;
        let mut st = st;
        st.pad.clear();
        self.check_state_against_reference(n, &st, "installs a snapshot");
        let nd = self.n(n);
        nd.sm = st.clone();
        let rec = SnapRec { meta: meta.clone(), bytes: Arc::new(bytes), state: st };
        self.adopt_snapshot(n, rec);
        self.beh(mix(n + 321, nx(&meta.last_log_id)));
        Some(())
    }

    pub fn check_state_against_reference(&mut self, n: u64, st: &SmState, what: &str) {
        let Some(l) = st.applied else { return };
        match self.reference.get(l.index as usize) {
            None => self.violate(&["C12", "C05"], "snapshot-of-unapplied", format!("n{n} {what} at {l} which nobody applied")),
            Some(r) => {
                if r.log_id != l || r.hash != st.hash || r.membership.0 != *st.membership.log_id() || r.membership.1 != *st.membership.membership() {
                    let m = format!("n{n} {what}: state at {l} differs from the state after applying the log upto there");
                    self.violate(&["C12", "C05", "C19"], "state-not-reference", m);
                }
            }
        }
    }
}

/// Every quorum of `a` intersects every quorum of `b` (brute force over subsets of the union).
pub fn coherent(a: &Membership, b: &Membership) -> bool {
    let mut ids: BTreeSet<u64> = BTreeSet::new();
    for c in a.get_joint_config().iter().chain(b.get_joint_config()) {
        ids.extend(c.iter());
    }
    let ids: Vec<u64> = ids.into_iter().collect();
    if ids.len() > 16 {
        return true;
    }
    for mask in 0u32..(1 << ids.len()) {
        let has = |x: u64| ids.iter().position(|y| *y == x).map(|p| mask >> p & 1 == 1).unwrap_or(false);
        if is_quorum(a, has) && is_quorum(b, |x| !has(x)) {
            return false;
        }
    }
    true
}

pub fn bytes_hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h, b.len() as u64)
}

pub fn entry_str(e: &Entry) -> String {
    match &e.payload {
        Payload::Blank => format!("{}:blank", e.log_id),
        Payload::Normal(r) => format!("{}:op{}", e.log_id, r.op),
        Payload::Membership(m) => format!("{}:cfg{}", e.log_id, mem_str(m)),
    }
}
