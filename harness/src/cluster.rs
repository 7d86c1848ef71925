//! Generated cluster histories: a drawn configuration and a drawn script of operations and faults,
//! executed on the simulated world, ended by healing everything and demanding convergence.
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::future::Future;
use std::sync::Arc;
use std::sync::Mutex;
use std::time::Duration;

use openraft::async_runtime::watch::WatchReceiver;
use openraft::error::ChangeMembershipError;
use openraft::error::CheckIsLeaderError;
use openraft::error::ClientWriteError;
use openraft::error::Fatal;
use openraft::error::ForwardToLeader;
use openraft::error::InitializeError;
use openraft::error::RaftError;
use openraft::ChangeMembers;
use openraft::Config;
use openraft::ServerState;
use openraft::SnapshotPolicy;

use crate::exec;
use crate::gen::mix;
use crate::gen::Source;
use crate::net::FactoryV1;
use crate::net::FactoryV2;
use crate::runner::Ctx;
use crate::runner::Viol;
use crate::store::Log;
use crate::store::Sm;
use crate::types::*;
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum K {
    Write,
    WriteFf,
    Burst,
    Read,
    ReadId,
    Change,
    AddLearner,
    Nodes,
    Init,
    Elect,
    Heartbeat,
    Snapshot,
    Purge,
    Transfer,
    Crash,
    Restart,
    Pause,
    Resume,
    Split,
    Isolate,
    CutOne,
    Heal,
    Noise,
    Shutdown,
    Toggle,
    Fault,
    Misc,
    Wait,
    LeaderCrash,
    LeaderCut,
}
pub const KINDS: [K; 30] = [
    K::Write, K::WriteFf, K::Burst, K::Read, K::ReadId, K::Change, K::AddLearner, K::Nodes, K::Init, K::Elect, K::Heartbeat,
    K::Snapshot, K::Purge, K::Transfer, K::Crash, K::Restart, K::Pause, K::Resume, K::Split, K::Isolate, K::CutOne, K::Heal,
    K::Noise, K::Shutdown, K::Toggle, K::Fault, K::Misc, K::Wait, K::LeaderCrash, K::LeaderCut,
];

#[derive(Clone)]
pub struct Profile {
    pub nodes: (u64, u64),
    pub ops: (u64, u64),
    pub weights: BTreeMap<K, u64>,
    pub single_init: bool,
    /// permille of cases using the chunked (V1) transport
    pub v1: u64,
    /// permille of cases with a lossy network from the start
    pub noisy: u64,
    pub snapshots: u64,
    pub volatile_sm: u64,
    pub slow_store: u64,
    pub big_members: bool,
    pub metrics: bool,
}

impl Profile {
    pub fn base() -> Self {
        let mut m = BTreeMap::new();
        for (k, x) in [
            (K::Write, 24),
            (K::WriteFf, 4),
            (K::Burst, 5),
            (K::Read, 6),
            (K::ReadId, 3),
            (K::Change, 5),
            (K::AddLearner, 3),
            (K::Nodes, 1),
            (K::Init, 1),
            (K::Elect, 3),
            (K::Heartbeat, 2),
            (K::Snapshot, 3),
            (K::Purge, 2),
            (K::Transfer, 2),
            (K::Crash, 4),
            (K::Restart, 5),
            (K::Pause, 2),
            (K::Resume, 3),
            (K::Split, 3),
            (K::Isolate, 2),
            (K::CutOne, 2),
            (K::Heal, 5),
            (K::Noise, 3),
            (K::Shutdown, 1),
            (K::Toggle, 1),
            (K::Fault, 0),
            (K::Misc, 3),
            (K::Wait, 12),
            (K::LeaderCrash, 3),
            (K::LeaderCut, 3),
        ] {
            m.insert(k, x);
        }
        Profile {
            nodes: (1, 5),
            ops: (8, 45),
            weights: m,
            single_init: true,
            v1: 250,
            noisy: 350,
            snapshots: 500,
            volatile_sm: 350,
            slow_store: 600,
            big_members: false,
            metrics: true,
        }
    }
    pub fn w(mut self, xs: &[(K, u64)]) -> Self {
        for (k, x) in xs {
            self.weights.insert(*k, *x);
        }
        self
    }
    /// multiply
    pub fn up(mut self, xs: &[K], f: u64) -> Self {
        for k in xs {
            let e = self.weights.entry(*k).or_insert(0);
            *e = (*e).max(1) * f;
        }
        self
    }
    pub fn zero(mut self, xs: &[K]) -> Self {
        for k in xs {
            self.weights.insert(*k, 0);
        }
        self
    }
}

pub struct Cl {
    pub cfg: Arc<Config>,
    pub ids: Vec<u64>,
    pub cl_group: exec::Group,
    pub v1: bool,
    pub next_op: u64,
    pub metrics: bool,
    pub init_voters: BTreeSet<u64>,
    pub max_el: u64,
}

type S = Arc<Mutex<Source>>;

fn d<R>(s: &S, f: impl FnOnce(&mut Source) -> R) -> R {
    f(&mut s.lock().unwrap())
}

pub fn alive(id: u64) -> bool {
    w(|w| w.nodes.get(&id).map(|n| n.alive && n.raft.is_some()).unwrap_or(false))
}
pub fn raft(id: u64) -> Option<Raft> {
    w(|w| w.nodes.get(&id).and_then(|n| if n.alive { n.raft.clone() } else { None }))
}
pub fn metrics_of(r: &Raft) -> Metrics {
    r.metrics().borrow_watched().clone()
}

/// Track an API call from start to completion.
pub fn api<T: Send + 'static>(g: exec::Group, what: String, node: u64, fut: impl Future<Output = T> + Send + 'static, done: impl FnOnce(T) + Send + 'static) {
    let id = w(|w| {
        let id = w.next_call;
        w.next_call += 1;
        w.calls.insert(id, Call { what: what.clone(), node, t: exec::now() });
        w.t(|| format!("call#{id} n{node} {what}"));
        id
    });
    exec::spawn_in(
        g,
        Box::pin(async move {
            let r = fut.await;
            w(|w| {
                w.calls.remove(&id);
                w.t(|| format!("call#{id} returned"));
            });
            done(r);
        }),
    );
}

fn fatal_ok(w: &mut World, n: u64, inc: u32, what: &str, f: &Fatal<TC>) {
    // A fatal answer is right only when the node was killed, shut down or hit a storage fault.
    let nd = &w.nodes[&n];
    let stopped = !nd.alive || nd.inc != inc || nd.shutdown || nd.faulted.is_some();
    if !stopped {
        let m = format!("n{n}: {what} returns {f} although the node was neither stopped nor faulty");
        w.violate(&["C17", "C27"], "unexpected-fatal", m);
    }
    w.class("api_fatal");
}

fn check_forward(w: &mut World, n: u64, what: &str, f: &ForwardToLeader<TC>) {
    w.class("api_forward");
    if let Some(l) = f.leader_id {
        w.class("api_forward_named");
        // (a leader handing over its leadership already redirects to the target of the transfer)
        let handed = w.transfer_targets.iter().any(|x| x.0 == n && x.1 == l);
        if !w.leaders.iter().any(|x| x.node == l) && !handed {
            let m = format!("n{n}: {what} redirects to n{l}, which never was a leader");
            w.violate(&["C17"], "forward-to-non-leader", m);
        }
        if let Some(node) = &f.leader_node {
            if *node != node_of(l) {
                let m = format!("n{n}: {what} redirects to n{l} with node record {node:?}");
                w.violate(&["C17"], "forward-node-record", m);
            }
        }
    } else if f.leader_node.is_some() {
        let m = format!("n{n}: {what} redirects to a node record without id");
        w.violate(&["C17"], "forward-node-without-id", m);
    }
}

/// A successful write reply.
fn check_write_ok(n: u64, op: u64, log_id: LogId, data: &Resp) {
    w(|w| {
        w.acks += 1;
        w.class("write_ok");
        let i = log_id.index;
        w.t(|| format!("n{n} acked op{op} at {log_id}"));
        match w.reference.get(i as usize) {
            Some(r) if r.log_id == log_id && r.op == op => {
                if r.resp != *data {
                    let m = format!("n{n}: op{op} acked at {log_id} with a response other than the one computed when applied");
                    w.violate(&["C24", "C06", "C05"], "wrong-response", m);
                }
            }
            Some(r) => {
                let m = format!("n{n}: op{op} acked at {log_id} but {} (op{}) is applied there", r.log_id, r.op);
                w.violate(&["C06", "C24"], "acked-not-applied", m);
            }
            None => {
                let m = format!("n{n}: op{op} acked at {log_id} but nothing is applied there");
                w.violate(&["C06", "C24"], "acked-not-applied", m);
            }
        }
        w.acked_index = w.acked_index.max(i + 1);
    })
}

fn write_err(n: u64, inc: u32, op: u64, e: &RaftError<TC, ClientWriteError<TC>>) {
    w(|w| match e {
        RaftError::Fatal(f) => fatal_ok(w, n, inc, "client_write", f),
        RaftError::APIError(ClientWriteError::ForwardToLeader(f)) => {
            check_forward(w, n, "client_write", f);
            if !w.logged_ops.contains_key(&op) {
                let ev = w.tick();
                w.rejected_ops.insert(op, ev);
                w.class("write_refused");
            } else {
                w.class("write_dropped_after_log");
            }
        }
        RaftError::APIError(ClientWriteError::ChangeMembershipError(e)) => {
            let m = format!("n{n}: a plain write fails with {e}");
            w.violate(&["C17"], "wrong-error", m);
        }
    })
}

impl Cl {
    pub fn api<T: Send + 'static>(&self, what: String, node: u64, fut: impl Future<Output = T> + Send + 'static, done: impl FnOnce(T) + Send + 'static) {
        api(self.cl_group, what, node, fut, done)
    }

    pub async fn start_node(&self, n: u64) {
        let g = exec::new_group();
        let dur = w(|w| {
            let now = exec::now();
            let nd = w.n(n);
            nd.inc += 1;
            nd.group = g;
            nd.alive = true;
            nd.raft = None;
            nd.started_at = now;
            nd.shutdown = false;
            nd.faulted = None;
            nd.metrics_prev = None;
            let inc = nd.inc;
            w.t(|| format!("n{n} START (incarnation {inc})"));
            let nd = w.n(n);
            (nd.mem.committed, nd.mem.last(), inc)
        });
        let inc = dur.2;
        let cfg = self.cfg.clone();
        let v1 = self.v1;
        let jh = exec::spawn_join(g, async move {
            if v1 {
                Raft::new(n, cfg, FactoryV1 { from: n }, Log { n }, Sm { n }).await
            } else {
                Raft::new(n, cfg, FactoryV2 { from: n }, Log { n }, Sm { n }).await
            }
        });
        match jh.await {
            Ok(Ok(r)) => {
                let stale = w(|w| {
                    let nd = w.n(n);
                    if nd.inc != inc || !nd.alive {
                        return true;
                    }
                    nd.raft = Some(r.clone());
                    // Before it serves anybody: what is known to be committed has been applied.
                    if let (true, Some(c)) = (nd.save_committed, dur.0) {
                        let want = c.index.min(nx(&dur.1).saturating_sub(1));
                        if nx(&dur.1) > 0 && nx(&nd.sm.applied) <= want {
                            let m = format!("n{n} starts with applied {}, though its storage holds {} and committed {c}", ls(&nd.sm.applied), ls(&dur.1));
                            w.violate(&["C19"], "committed-not-reapplied", m);
                        }
                    }
                    false
                });
                if stale {
                    return;
                }
                self.check_restored(n, inc, &r);
                if self.metrics {
                    watch_metrics(self.cl_group, n, inc, r);
                }
            }
            Ok(Err(e)) => w(|w| {
                if w.n(n).faulted.is_none() && w.n(n).inc == inc && w.n(n).alive {
                    w.violate(&["C19", "C15"], "start-failed", format!("n{n} fails to start from its own durable state: {e}"));
                }
                w.n(n).alive = false;
            }),
            Err(e) => w(|w| {
                if w.n(n).inc == inc && w.n(n).alive {
                    w.violate(&["C19", "C27"], "start-panicked", format!("n{n} panics while starting: {e}"));
                    w.n(n).alive = false;
                }
            }),
        }
    }

    /// After a start the node must be where its durable state left it (or beyond).
    fn check_restored(&self, n: u64, inc: u32, r: &Raft) {
        let m = metrics_of(r);
        w(|w| {
            let nd = &w.nodes[&n];
            if nd.inc != inc {
                return;
            }
            if nd.inc > 1 {
                w.class("restart");
            }
            let _ = m;
        });
        let r = r.clone();
        let fut = async move {
            r.with_raft_state(move |st| {
                w(|w| {
                    let nd = &w.nodes[&n];
                    if nd.inc != inc {
                        return;
                    }
                    let mut bad = vec![];
                    let purged = idx(&nd.mem.purged);
                    let applied = idx(&nd.sm.applied);
                    // membership in effect must be the last one in the log / state machine
                    let (ml, mm) = nd.effective_membership();
                    let em = st.membership_state.effective();
                    if *em.log_id() != ml || *em.membership() != mm {
                        bad.push(format!("effective membership {}@{} but storage has {}@{}", mem_str(em.membership()), ls(em.log_id()), mem_str(&mm), ls(&ml)));
                    }
                    if idx(&st.committed) < applied {
                        bad.push(format!("committed {} below applied {applied:?}", ls(&st.committed)));
                    }
                    if nx(&st.snapshot_meta.last_log_id) < purged.map(|x| x + 1).unwrap_or(0) && nd.snap.is_some() {
                        bad.push(format!("snapshot {} below purged {purged:?}", ls(&st.snapshot_meta.last_log_id)));
                    }
                    for b in bad {
                        w.violate(&["C19"], "restored-state", format!("n{n} after start: {b}"));
                    }
                });
            })
            .await
        };
        self.api("with_raft_state".into(), n, fut, move |r| {
            if let Err(f) = r {
                w(|w| fatal_ok(w, n, inc, "with_raft_state", &f));
            }
        });
    }

    pub fn crash(&self, n: u64) {
        let g = w(|w| {
            let nd = w.n(n);
            nd.alive = false;
            nd.raft = None;
            nd.group
        });
        exec::kill_group(g);
        w(|w| {
            w.class("crash");
            w.crash_disk(n)
        });
    }

    pub fn leaders_now(&self) -> Vec<u64> {
        self.ids
            .iter()
            .copied()
            .filter(|n| match raft(*n) {
                Some(r) => {
                    let m = metrics_of(&r);
                    m.state == ServerState::Leader && m.running_state.is_ok()
                }
                None => false,
            })
            .collect()
    }

    fn pick_target(&self, s: &S) -> Option<u64> {
        let ls = self.leaders_now();
        let up: Vec<u64> = self.ids.iter().copied().filter(|n| alive(*n)).collect();
        if up.is_empty() {
            return None;
        }
        if !ls.is_empty() && !d(s, |s| s.permille(150)) {
            let i = d(s, |s| s.draw(ls.len() as u64)) as usize;
            return Some(ls[i]);
        }
        let i = d(s, |s| s.draw(up.len() as u64)) as usize;
        Some(up[i])
    }
    fn pick_any(&self, s: &S) -> Option<u64> {
        let up: Vec<u64> = self.ids.iter().copied().filter(|n| alive(*n)).collect();
        if up.is_empty() {
            return None;
        }
        let i = d(s, |s| s.draw(up.len() as u64)) as usize;
        Some(up[i])
    }

    fn inc(&self, n: u64) -> u32 {
        w(|w| w.n(n).inc)
    }

    pub fn write(&mut self, n: u64, key: u8, ff: bool) {
        let Some(r) = raft(n) else { return };
        let op = self.next_op;
        self.next_op += 1;
        let inc = self.inc(n);
        let req = Req { op, key, val: op as u32 * 7 + 1 };
        w(|w| w.class(if ff { "op_write_ff" } else { "op_write" }));
        if ff {
            self.api(format!("client_write_ff op{op}"), n, async move {
                match r.client_write_ff(req).await {
                    Ok(rx) => match rx.await {
                        Ok(x) => x.map_err(RaftError::APIError),
                        Err(_) => Err(RaftError::Fatal(Fatal::Stopped)),
                    },
                    Err(f) => Err(RaftError::Fatal(f)),
                }
            }, move |res| match res {
                Ok(x) => check_write_ok(n, op, x.log_id, &x.data),
                Err(e) => write_err(n, inc, op, &e),
            });
        } else {
            self.api(format!("client_write op{op}"), n, async move { r.client_write(req).await }, move |res| match res {
                Ok(x) => {
                    if x.membership.is_some() {
                        w(|w| w.violate(&["C24"], "membership-in-write-reply", format!("op{op}")));
                    }
                    check_write_ok(n, op, x.log_id, &x.data)
                }
                Err(e) => write_err(n, inc, op, &e),
            });
        }
    }

    /// Submit several pipelined writes to one node from one task; replies must be in order.
    pub fn burst(&mut self, n: u64, count: u64) {
        let Some(r) = raft(n) else { return };
        let inc = self.inc(n);
        let first = self.next_op;
        self.next_op += count;
        w(|w| w.class("op_burst"));
        self.api(format!("burst op{first}..{}", first + count - 1), n, async move {
            let mut rxs = vec![];
            for k in 0..count {
                let op = first + k;
                match r.client_write_ff(Req { op, key: (op % 4) as u8, val: op as u32 }).await {
                    Ok(rx) => rxs.push((op, rx)),
                    Err(f) => return (vec![], Some(f)),
                }
            }
            let mut out = vec![];
            for (op, rx) in rxs {
                out.push((op, rx.await));
            }
            (out, None)
        }, move |(out, f)| {
            if let Some(f) = f {
                w(|w| fatal_ok(w, n, inc, "client_write_ff", &f));
            }
            let mut last: Option<LogId> = None;
            for (op, r) in out {
                match r {
                    Ok(Ok(x)) => {
                        check_write_ok(n, op, x.log_id, &x.data);
                        if let Some(l) = last {
                            if x.log_id.index <= l.index {
                                w(|w| w.violate(&["C24"], "pipelined-order", format!("op{op} submitted after, logged at {} before {l}", x.log_id)));
                            }
                        }
                        last = Some(x.log_id);
                    }
                    Ok(Err(e)) => write_err(n, inc, op, &RaftError::APIError(e)),
                    Err(_) => w(|w| fatal_ok(w, n, inc, "client_write_ff reply", &Fatal::Stopped)),
                }
            }
        });
    }

    pub fn read(&self, n: u64, by_id: bool) {
        let Some(r) = raft(n) else { return };
        let inc = self.inc(n);
        let (fa, fr) = w(|w| {
            w.class("op_read");
            (w.acked_index, w.read_index)
        });
        let floor = fa.max(fr);
        let r2 = r.clone();
        let fut = async move {
            if by_id {
                match r2.get_read_log_id().await {
                    Ok((rl, ap)) => {
                        if nx(&rl) < floor {
                            w(|w| w.violate(&["C07"], "read-index-stale", format!("n{n}: read log id {} but index {} was already acknowledged/read before the call", ls(&rl), floor - 1)));
                        }
                        if nx(&rl) > nx(&ap) {
                            let _ = r2.wait(Some(Duration::from_secs(5))).applied_index_at_least(idx(&rl), "read").await;
                        }
                        let app = w(|w| idx(&w.n(n).sm.applied));
                        if app < idx(&rl) {
                            return Ok(None);
                        }
                        Ok(Some(rl))
                    }
                    Err(e) => Err(e),
                }
            } else {
                r2.ensure_linearizable().await.map(Some)
            }
        };
        let what = if by_id { "get_read_log_id" } else { "ensure_linearizable" };
        self.api(what.into(), n, fut, move |res| {
            w(|w| match res {
                Ok(Some(rl)) => {
                    let nd = &w.nodes[&n];
                    if nd.inc != inc || !nd.alive {
                        return;
                    }
                    let applied = nx(&nd.sm.applied);
                    w.reads += 1;
                    w.class("read_ok");
                    if floor > 0 {
                        w.class("read_ok_with_floor");
                    }
                    let m = format!("n{n}: {what} succeeds with read log id {}, state machine at {applied}; before the call {fa} entries were acknowledged and {fr} read", ls(&rl));
                    w.t(|| m.clone());
                    if applied < floor {
                        w.violate(&["C07"], "stale-read", m);
                    }
                    w.read_index = w.read_index.max(applied);
                }
                Ok(None) => w.class("read_wait_timeout"),
                Err(RaftError::Fatal(f)) => fatal_ok(w, n, inc, what, &f),
                Err(RaftError::APIError(CheckIsLeaderError::ForwardToLeader(f))) => check_forward(w, n, what, &f),
                Err(RaftError::APIError(CheckIsLeaderError::QuorumNotEnough(_))) => w.class("read_no_quorum"),
            })
        });
    }

    pub fn change(&self, n: u64, ch: ChangeMembers<TC>, retain: bool) {
        let Some(r) = raft(n) else { return };
        let inc = self.inc(n);
        let c2 = ch.clone();
        let (started, alone) = w(|w| {
            w.class("op_change_membership");
            w.changes.0 += 1;
            w.changes.1 += 1;
            (w.changes.0, w.changes.1 == 1)
        });
        self.api(format!("change_membership {ch:?} retain={retain}"), n, async move { r.change_membership(ch, retain).await }, move |res| {
            w(|w| w.changes.1 -= 1);
            w(|w| match res {
                Ok(x) => {
                    w.class("change_ok");
                    let Some(m) = x.membership.clone() else {
                        w.violate(&["C28"], "no-membership-in-reply", format!("n{n}: change_membership reply has no membership"));
                        return;
                    };
                    w.t(|| format!("n{n} change_membership ok: {} at {}", mem_str(&m), x.log_id));
                    check_member_reply(w, n, &x.log_id, &m, "change_membership");
                    // (changing nodes only neither starts nor ends a change of voters)
                    let nodes_only = matches!(c2, ChangeMembers::AddNodes(_) | ChangeMembers::SetNodes(_) | ChangeMembers::RemoveNodes(_) | ChangeMembers::ReplaceAllNodes(_));
                    // (the second step of a concurrent change may come between the two steps of this one)
                    let alone = alone && w.changes.0 == started;
                    if m.get_joint_config().len() != 1 && !nodes_only {
                        if alone {
                            w.violate(&["C28", "C11"], "joint-reported-as-done", format!("n{n}: change_membership {c2:?} returns success with joint config {}", mem_str(&m)));
                        }
                        return;
                    }
                    let v: BTreeSet<u64> = m.voter_ids().collect();
                    let good = match &c2 {
                        ChangeMembers::AddVoterIds(x) => x.is_subset(&v),
                        ChangeMembers::AddVoters(x) => x.keys().all(|k| v.contains(k)),
                        ChangeMembers::RemoveVoters(x) => x.is_disjoint(&v),
                        ChangeMembers::ReplaceAllVoters(x) => *x == v,
                        ChangeMembers::AddNodes(x) => x.keys().all(|k| m.get_node(k).is_some()),
                        ChangeMembers::SetNodes(x) => x.iter().all(|(k, nd)| m.get_node(k) == Some(nd)),
                        ChangeMembers::RemoveNodes(x) => x.iter().all(|k| m.get_node(k).is_none()),
                        ChangeMembers::ReplaceAllNodes(x) => m.nodes().map(|(k, v)| (*k, v.clone())).collect::<BTreeMap<_, _>>() == *x,
                    };
                    if !good {
                        w.violate(&["C28"], "request-not-reflected", format!("n{n}: change_membership {c2:?} returns success with config {}", mem_str(&m)));
                    }
                }
                Err(RaftError::Fatal(f)) => fatal_ok(w, n, inc, "change_membership", &f),
                Err(RaftError::APIError(ClientWriteError::ForwardToLeader(f))) => check_forward(w, n, "change_membership", &f),
                Err(RaftError::APIError(ClientWriteError::ChangeMembershipError(e))) => {
                    w.class(match e {
                        ChangeMembershipError::InProgress(_) => "change_in_progress",
                        ChangeMembershipError::EmptyMembership(_) => "change_empty",
                        ChangeMembershipError::LearnerNotFound(_) => "change_learner_not_found",
                    });
                }
            })
        });
    }

    pub fn add_learner(&self, n: u64, id: u64, blocking: bool) {
        let Some(r) = raft(n) else { return };
        let inc = self.inc(n);
        w(|w| w.class("op_add_learner"));
        let vote0 = w(|w| w.n(n).mem.vote);
        self.api(format!("add_learner {id} blocking={blocking}"), n, async move { r.add_learner(id, node_of(id), blocking).await }, move |res| {
            w(|w| match res {
                Ok(x) => {
                    w.class("add_learner_ok");
                    let Some(m) = x.membership.clone() else {
                        w.violate(&["C28"], "no-membership-in-reply", format!("n{n}: add_learner reply has no membership"));
                        return;
                    };
                    check_member_reply(w, n, &x.log_id, &m, "add_learner");
                    if m.get_node(&id).is_none() {
                        w.violate(&["C28"], "request-not-reflected", format!("n{n}: add_learner {id} returns success with config {}", mem_str(&m)));
                    }
                    if blocking && id != n {
                        let nd = &w.nodes[&n];
                        let still = nd.alive && nd.inc == inc && nd.mem.vote == vote0 && !nd.shutdown && nd.faulted.is_none();
                        let eff = w.nodes[&n].effective_membership().1;
                        let in_cfg = eff.get_node(&id).is_some();
                        // (a leader that removed itself steps down and no longer observes the learner)
                        let is_voter = eff.voter_ids().any(|x| x == n);
                        if still && in_cfg && is_voter {
                            w.class("add_learner_blocking_ok");
                            let l = &w.nodes[&id];
                            let have = nx(&l.durable.last()).max(nx(&l.snap_last()));
                            if have + w.cfg.lag_threshold < x.log_id.index + 1 {
                                let m = format!("n{n}: blocking add_learner {id} returns success; the learner holds {have} entries, its config is at {}, allowed lag {}", x.log_id, w.cfg.lag_threshold);
                                w.violate(&["C28"], "learner-not-caught-up", m);
                            }
                        }
                    }
                }
                Err(RaftError::Fatal(f)) => fatal_ok(w, n, inc, "add_learner", &f),
                Err(RaftError::APIError(ClientWriteError::ForwardToLeader(f))) => check_forward(w, n, "add_learner", &f),
                Err(RaftError::APIError(ClientWriteError::ChangeMembershipError(_))) => w.class("add_learner_refused"),
            })
        });
    }

    pub fn initialize(&self, n: u64, members: BTreeMap<u64, openraft::BasicNode>) {
        let Some(r) = raft(n) else { return };
        let inc = self.inc(n);
        w(|w| w.class("op_initialize"));
        let contains = members.contains_key(&n);
        let first_ev = w(|w| w.tick());
        let virgin = w(|w| {
            let nd = w.n(n);
            nd.mem.last().is_none() && nd.mem.vote.is_none()
        });
        self.api(format!("initialize {:?}", members.keys()), n, async move { r.initialize(members).await }, move |res| {
            w(|w| match res {
                Ok(()) => {
                    w.class("initialize_ok");
                    if !contains {
                        w.violate(&["C20"], "initialized-without-self", format!("n{n} initialized with a config that does not contain it"));
                    }
                    if !virgin {
                        w.violate(&["C20"], "initialized-twice", format!("n{n} accepts initialize with an existing log or vote (event {first_ev})"));
                    }
                }
                Err(RaftError::Fatal(f)) => fatal_ok(w, n, inc, "initialize", &f),
                Err(RaftError::APIError(InitializeError::NotAllowed(_))) => {
                    w.class("initialize_not_allowed");
                    let nd = &w.nodes[&n];
                    if nd.mem.last().is_none() && nd.mem.vote.map(|v| v == Vote::default()).unwrap_or(true) && nd.inc == inc && nd.alive {
                        w.violate(&["C20"], "initialize-refused-on-blank", format!("n{n} refuses initialize with neither log nor vote"));
                    }
                }
                Err(RaftError::APIError(InitializeError::NotInMembers(_))) => {
                    w.class("initialize_not_in_members");
                    if contains {
                        w.violate(&["C20"], "initialize-wrong-refusal", format!("n{n} says it is not in a config that contains it"));
                    }
                }
            })
        });
    }
}

fn check_member_reply(w: &mut World, n: u64, l: &LogId, m: &Membership, what: &str) {
    w.acked_index = w.acked_index.max(l.index + 1);
    match w.reference.get(l.index as usize) {
        Some(r) if r.log_id == *l => {
            if r.ph != membership_hash(m) {
                w.violate(&["C28", "C24"], "reply-config-not-in-log", format!("n{n}: {what} reports config {} at {l}, the log holds another", mem_str(m)));
            }
        }
        _ => w.violate(&["C28", "C06"], "reply-not-committed", format!("n{n}: {what} reports {l}, which is not committed")),
    }
}

// ------------------------------------------------------------------ metrics

fn watch_metrics(g: exec::Group, n: u64, inc: u32, r: Raft) {
    let mut rx = r.metrics();
    drop(r);
    exec::spawn_in(
        g,
        Box::pin(async move {
            loop {
                let m = rx.borrow_watched().clone();
                w(|w| on_metrics(w, n, inc, &m));
                if rx.changed().await.is_err() {
                    break;
                }
            }
        }),
    );
}

fn on_metrics(w: &mut World, n: u64, inc: u32, m: &Metrics) {
    let nd = &w.nodes[&n];
    // (a node whose storage just failed is stopping: what it reports while doing so is judged by C18)
    if nd.inc != inc || !nd.alive || nd.faulted.is_some() {
        return;
    }
    let mut bad: Vec<(&str, String)> = vec![];
    let d = &nd.durable;
    let now = exec::now();
    if m.id != n {
        bad.push(("id", format!("id {}", m.id)));
    }
    match d.vote {
        Some(v) => {
            if !(v >= uncommitted(&m.vote)) {
                bad.push(("vote-not-durable", format!("vote {} but durable {v}", m.vote)));
            }
        }
        None => {
            if vote_term(&m.vote) > 0 {
                bad.push(("vote-not-durable", format!("vote {} but none durable", m.vote)));
            }
        }
    }
    if m.last_log_index.map(|x| x + 1).unwrap_or(0) > nd.max_mem_last.map(|x| x + 1).unwrap_or(0).max(nd.snap_offered).max(nd.append_offered) {
        bad.push(("last-log-beyond-storage", format!("last log {:?}, storage never held more than {:?}", m.last_log_index, nd.max_mem_last)));
    }
    if nx(&m.last_applied) > nx(&nd.sm.applied) {
        bad.push(("applied-beyond-state-machine", format!("applied {} but the state machine is at {}", ls(&m.last_applied), ls(&nd.sm.applied))));
    }
    if let Some(l) = &m.last_applied {
        if let Some(r) = w.reference.get(l.index as usize) {
            if r.log_id != *l {
                bad.push(("applied-wrong-id", format!("applied {l}, applied entry there is {}", r.log_id)));
            }
        }
    }
    if nx(&m.snapshot) > nx(&nd.snap_last()) {
        bad.push(("snapshot-beyond-storage", format!("snapshot {} but storage has {}", ls(&m.snapshot), ls(&nd.snap_last()))));
    }
    if nx(&m.purged) > nx(&nd.mem.purged) {
        bad.push(("purged-beyond-storage", format!("purged {} but storage purged {}", ls(&m.purged), ls(&nd.mem.purged))));
    }
    if nx(&m.purged) > nx(&m.snapshot) && nd.inc == inc {
        bad.push(("order-purged-snapshot", format!("purged {} above snapshot {}", ls(&m.purged), ls(&m.snapshot))));
    }
    if nx(&m.snapshot) > nx(&m.last_applied) {
        bad.push(("order-snapshot-applied", format!("snapshot {} above applied {}", ls(&m.snapshot), ls(&m.last_applied))));
    }
    if nx(&m.last_applied) > m.last_log_index.map(|x| x + 1).unwrap_or(0) {
        bad.push(("order-applied-last", format!("applied {} above last log {:?}", ls(&m.last_applied), m.last_log_index)));
    }
    if let Some(p) = &nd.metrics_prev {
        if nx(&p.last_applied) > nx(&m.last_applied) {
            bad.push(("applied-regressed", format!("applied {} after {}", ls(&m.last_applied), ls(&p.last_applied))));
        }
        if nx(&p.snapshot) > nx(&m.snapshot) {
            bad.push(("snapshot-regressed", format!("snapshot {} after {}", ls(&m.snapshot), ls(&p.snapshot))));
        }
        if nx(&p.purged) > nx(&m.purged) {
            bad.push(("purged-regressed", format!("purged {} after {}", ls(&m.purged), ls(&p.purged))));
        }
        if p.current_term > m.current_term {
            bad.push(("term-regressed", format!("term {} after {}", m.current_term, p.current_term)));
        }
        if !(m.vote >= p.vote) {
            bad.push(("vote-regressed", format!("vote {} after {}", m.vote, p.vote)));
        }
        if p.running_state.is_err() && m.running_state.is_ok() {
            bad.push(("running-again", "running after it stopped".into()));
        }
    }
    if m.state == ServerState::Leader && m.running_state.is_ok() {
        if !w.leaders.iter().any(|l| l.node == n) {
            bad.push(("leader-never-elected", "reports Leader but never won an election".into()));
        }
        if m.current_leader.is_some() && m.current_leader != Some(n) {
            bad.push(("leader-names-other", format!("is Leader but current_leader={:?}", m.current_leader)));
        }
    }
    if let Some(l) = m.current_leader {
        if !w.leaders.iter().any(|x| x.node == l) {
            bad.push(("current-leader-never-led", format!("current_leader {l} never won an election")));
        }
    }
    let ml = *m.membership_config.log_id();
    if let Some(l) = ml {
        if let Some(x) = w.all_memberships.get(&l) {
            if x != m.membership_config.membership() {
                bad.push(("membership-content", format!("membership at {l} is {} in the log", mem_str(x))));
            }
        }
    }
    if let Some(rep) = &m.replication {
        for (t, l) in rep {
            if let Some(l) = l {
                if let Some(tn) = w.nodes.get(t) {
                    let ok = if *t == n {
                        tn.durable_ever.contains(l) || nx(&tn.snap_last()) > l.index || nx(&tn.mem.purged) > l.index
                    } else {
                        tn.durable_ever.contains(l) || nx(&tn.snap_last()) > l.index
                    };
                    if !ok {
                        bad.push(("replication-overstated", format!("replication of n{t} at {l}, never durable there")));
                    }
                }
            }
        }
    }
    if let Some(q) = &m.last_quorum_acked {
        // no quorum may have acknowledged later than what the network really delivered
        let (_, mem) = nd.effective_membership();
        let v = m.vote;
        let q_ns = q.0;
        let quorum_ok = {
            let mut ids = BTreeSet::new();
            for t in w.nodes.keys() {
                if *t == n || w.answered_ok.get(&(n, vkey(&v), *t)).map(|x| *x >= q_ns).unwrap_or(false) {
                    ids.insert(*t);
                }
            }
            let est = w.leaders.iter().any(|l| l.node == n && l.t >= q_ns);
            est || is_quorum(&mem, |x| ids.contains(&x)) || w.all_memberships.values().any(|m| is_quorum(m, |x| ids.contains(&x)))
        };
        if !quorum_ok {
            bad.push(("quorum-acked-overstated", format!("last_quorum_acked at {:.3} ms, no quorum acknowledged anything sent at or after that", ms(q_ns))));
        }
        if q_ns > now {
            bad.push(("quorum-acked-future", "last_quorum_acked in the future".into()));
        }
        w.class("metrics_quorum_acked");
    }
    if let Some(hb) = &m.heartbeat {
        for (t, q) in hb {
            if let Some(q) = q {
                if *t == n {
                    continue;
                }
                let best = w.answered_ok.iter().filter(|((l, _, x), _)| *l == n && x == t).map(|(_, v)| *v).max().unwrap_or(0);
                if q.0 > best {
                    bad.push(("heartbeat-overstated", format!("heartbeat of n{t} at {:.3} ms; the last acknowledged RPC was sent at {:.3} ms", ms(q.0), ms(best.max(exec::BASE)))));
                }
            }
        }
    }
    w.class("metrics_samples");
    for (s, b) in bad {
        w.violate(&["C16"], &format!("metrics-{s}"), format!("n{n} publishes metrics with {b}"));
    }
    w.n(n).metrics_prev = Some(m.clone());
}

// ------------------------------------------------------------------ script

fn draw_cfg(s: &mut Source, p: &Profile) -> (Config, SimCfg, bool, u64) {
    let n_total = s.range(p.nodes.0, p.nodes.1);
    let hb = *s.pick(&[50u64, 20, 100]);
    let el_min = hb * s.range(2, 5) + s.draw(40);
    let el_max = el_min + s.range(1, 4) * 40;
    let snaps = s.permille(p.snapshots);
    let policy = if snaps { SnapshotPolicy::LogsSinceLast(*s.pick(&[6u64, 1, 3, 12, 30])) } else { SnapshotPolicy::Never };
    let keep = *s.pick(&[0u64, 1, 3, 1000]);
    let batch = *s.pick(&[1u64, 2, 5]);
    let payload = *s.pick(&[300u64, 1, 2, 5]);
    let lag = *s.pick(&[5000u64, 0, 2, 5, 20]);
    let chunk = *s.pick(&[3 * 1024 * 1024u64, 64, 200, 1000]);
    let inst = *s.pick(&[200u64, 60, 500]);
    let slow = s.permille(p.slow_store);
    let store_delay = if slow { *s.pick(&[2u64, 1, 3]) } else { 0 };
    let limited_reads = s.bool();
    let snap_pad = *s.pick(&[0u64, 300, 1500]);
    let v1 = s.permille(p.v1);
    let unreach_hang = s.bool();
    let backoff_ms = *s.pick(&[100u64, 20, 500]);
    #[allow(deprecated)]
    let mut c = Config {
        cluster_name: "sim".into(),
        election_timeout_min: el_min,
        election_timeout_max: el_max,
        heartbeat_interval: hb,
        install_snapshot_timeout: inst,
        max_payload_entries: payload,
        replication_lag_threshold: lag,
        snapshot_policy: policy,
        snapshot_max_chunk_size: chunk,
        max_in_snapshot_log_to_keep: keep,
        purge_batch_size: batch,
        ..Default::default()
    };
    if s.permille(30) {
        c.enable_heartbeat = false;
    }
    let sc = SimCfg {
        n_total,
        store_delay,
        limited_reads,
        snap_pad,
        hb,
        el_min,
        el_max,
        net_v1: v1,
        unreach_hang,
        backoff_ms,
        lag_threshold: lag,
    };
    (c.validate().expect("valid config"), sc, v1, n_total)
}

fn draw_noise(s: &mut Source, hb: u64, noisy: bool) -> (u64, u64, u64, u64, u64, u64, u64, u64) {
    if !noisy {
        return (0, 0, 50, 300, 0, 0, 0, 0);
    }
    let loss = *s.pick(&[0u64, 30, 150, 400]);
    let dup = *s.pick(&[0u64, 50, 300]);
    let dmin = 50;
    let dmax = *s.pick(&[300, hb * 100, hb * 400, hb * 1000, hb * 2500]);
    let late = *s.pick(&[0u64, 20, 150]);
    let partial = *s.pick(&[0u64, 100, 400]);
    let large = *s.pick(&[0u64, 100]);
    let sf = *s.pick(&[0u64, 100, 500]);
    (loss, dup, dmin, dmax, late, partial, large, sf)
}

fn set_noise(x: (u64, u64, u64, u64, u64, u64, u64, u64)) {
    w(|w| {
        let n = &mut w.net;
        n.loss = x.0;
        n.dup = x.1;
        n.delay_min_us = x.2;
        n.delay_max_us = x.3.max(x.2);
        n.late_permille = x.4;
        n.partial_permille = x.5;
        n.too_large_permille = x.6;
        n.snap_fail_permille = x.7;
        w.t(|| format!("network: {x:?}"));
    })
}

fn draw_dt(s: &mut Source, hb: u64, el: u64) -> u64 {
    match s.weighted(&[30, 20, 25, 15, 10]) {
        0 => 0,
        1 => s.draw(3_000_000),
        2 => s.draw(hb * 1_000_000),
        3 => s.draw(el * 1_000_000),
        _ => s.draw(el * 4_000_000),
    }
}

fn draw_subset(s: &mut Source, ids: &[u64], base: &BTreeSet<u64>) -> BTreeSet<u64> {
    let mut v = base.clone();
    match s.draw(4) {
        0 | 1 => {
            // flip one or two
            for _ in 0..1 + s.draw(2) {
                let x = *s.pick(ids);
                if !v.remove(&x) {
                    v.insert(x);
                }
            }
        }
        2 => {
            // swap one out, one in
            if let Some(x) = v.iter().next().copied() {
                v.remove(&x);
            }
            v.insert(*s.pick(ids));
        }
        _ => {
            v.clear();
            for x in ids {
                if s.bool() {
                    v.insert(*x);
                }
            }
        }
    }
    if v.is_empty() && s.draw(8) != 0 {
        v.insert(ids[0]);
    }
    v
}

pub fn case(src: &mut Source, ctx: &mut Ctx, p: &Profile) {
    case_with(src, ctx, p, |_| true)
}

pub fn setup_world(src: &mut Source, ctx: &Ctx, p: &Profile) -> (Cl, S2) {
    let (mut cfg, sc, v1, n_total) = draw_cfg(src, p);
    let exec_seed = src.draw(1 << 32);
    let random_sched = src.draw(5) != 0;
    let tick = *src.pick(&[0u64, 2000, 20_000]);
    let base_id = if src.draw(6) == 5 { 0 } else { 1 };
    let volatile = src.permille(p.volatile_sm);
    let save_committed = src.bool();
    exec::init(exec_seed, random_sched, tick);
    let hb = sc.hb;
    let mut world = World::new(sc, ctx.tracing);
    let netg = exec::new_group();
    let cl_group = exec::new_group();
    world.net.group = netg;
    let ids: Vec<u64> = (base_id..base_id + n_total).collect();
    for id in &ids {
        let mut nd = NodeW::new(*id);
        nd.sm_mode = if volatile { SmMode::Volatile } else { SmMode::Persistent };
        nd.save_committed = save_committed;
        world.nodes.insert(*id, nd);
    }
    crate::world::install(world);
    let noisy = src.permille(p.noisy);
    set_noise(draw_noise(src, hb, noisy));
    let nv = if n_total == 1 { 1 } else { 1 + src.draw(n_total) };
    let nv = if src.draw(4) != 0 { nv.max(n_total.min(3)) } else { nv };
    let init_voters: BTreeSet<u64> = ids.iter().copied().take(nv as usize).collect();
    cfg.cluster_name = "sim".into();
    let max_el = cfg.election_timeout_max;
    (
        Cl { cfg: Arc::new(cfg), ids, cl_group, v1, next_op: 1, metrics: p.metrics, init_voters, max_el },
        (hb, max_el),
    )
}
pub type S2 = (u64, u64);

pub fn case_with(src: &mut Source, ctx: &mut Ctx, p: &Profile, nontrivial: impl Fn(&World) -> bool) {
    let (cl, (hb, el)) = setup_world(src, ctx, p);
    let n_ops = src.range(p.ops.0, p.ops.1) * if ctx.thorough { 2 } else { 1 };
    let s: S = Arc::new(Mutex::new(std::mem::replace(src, Source::replay(vec![]))));
    let s2 = s.clone();
    let p2 = p.clone();
    let r = exec::block_on(
        async move {
            let mut cl = cl;
            script(&mut cl, &s2, &p2, n_ops, hb, el).await;
        },
        6_000_000,
    );
    {
        let mut g = s.lock().unwrap();
        *src = std::mem::replace(&mut *g, Source::replay(vec![]));
    }
    finish(ctx, r.err(), nontrivial);
}

/// Collect the outcome of a cluster case.
pub fn finish(ctx: &mut Ctx, end: Option<exec::RunEnd>, nontrivial: impl Fn(&World) -> bool) {
    let mut wd = crate::world::take().unwrap();
    let panics: Vec<(u32, String, String)> = exec::with(|e| e.panics.iter().map(|p| (p.group, p.msg.clone(), p.loc.clone())).collect());
    let net = wd.net.group;
    for (g, m, l) in &panics {
        if l.contains("harness/src") || *g == exec::DRIVER || (*g == net && !l.contains("openraft")) {
            if !l.contains("/openraft/src/") {
                panic!("harness panicked at {l}: {m}");
            }
        }
        let file = l.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
        let head: String = m.chars().take_while(|c| !c.is_ascii_digit()).take(60).collect();
        let node = wd.nodes.values().find(|n| n.group == *g).map(|n| n.id);
        ctx.violate("ANY", &format!("panic:{file}:{}", head.trim()), format!("node {node:?} panicked at {l}: {m}"));
    }
    if let Some(e) = end {
        if panics.is_empty() && wd.viol.is_empty() {
            match e {
                exec::RunEnd::Livelock => ctx.violate("C15", "livelock", "no progress of time: tasks spin without waiting"),
                e => panic!("case did not finish: {e:?}"),
            }
        }
    }
    for v in wd.viol.drain(..) {
        ctx.viol.push(v);
    }
    for (k, v) in &wd.classes {
        *ctx.classes.entry(k.clone()).or_default() += v;
    }
    ctx.fp = mix(ctx.fp, wd.behaviour);
    ctx.nontrivial = nontrivial(&wd);
    let voters = wd.all_memberships.values().last().map(mem_str).unwrap_or_default();
    ctx.sample = format!(
        "{} nodes, hb={} el={}..{}, {}; {} leaders, {} entries applied, {} writes acked, {} reads ok, last config {voters}, rpcs {} (lost {}, dup {}), virtual {:.1}s",
        wd.cfg.n_total,
        wd.cfg.hb,
        wd.cfg.el_min,
        wd.cfg.el_max,
        if wd.cfg.net_v1 { "chunked transport" } else { "v2 transport" },
        wd.leaders.len(),
        wd.reference.len(),
        wd.acks,
        wd.reads,
        wd.net.sent,
        wd.net.lost,
        wd.net.dups,
        ms(exec::now()) / 1000.0
    );
    ctx.trace.append(&mut wd.trace);
    if std::env::var("ORPBT_EVENTS").is_ok() {
        ctx.trace.push(format!("classes {:?}", wd.classes));
    }
}

pub(crate) async fn script(cl: &mut Cl, s: &S, p: &Profile, n_ops: u64, hb: u64, el: u64) {
    for n in cl.ids.clone() {
        cl.start_node(n).await;
    }
    // form the cluster
    let members: BTreeMap<u64, openraft::BasicNode> = cl.init_voters.iter().map(|x| (*x, node_of(*x))).collect();
    let how = d(s, |s| s.draw(8));
    if how != 7 || p.single_init {
        let first = *cl.init_voters.iter().next().unwrap();
        cl.initialize(first, members.clone());
        if how == 6 || how == 5 {
            for n in cl.init_voters.clone().into_iter().skip(1) {
                cl.initialize(n, members.clone());
            }
        }
    }
    if d(s, |s| s.draw(6)) != 5 {
        // usually let the first election finish
        for _ in 0..200 {
            exec::sleep_ms(hb / 2).await;
            if !cl.leaders_now().is_empty() {
                break;
            }
        }
    }
    let ws: Vec<u64> = KINDS.iter().map(|k| p.weights.get(k).copied().unwrap_or(0)).collect();
    for _ in 0..n_ops {
        d(s, |s| s.begin());
        let dead = d(s, |s| s.draw(1000)) >= 995;
        let k = KINDS[d(s, |s| s.weighted(&ws))];
        if !dead {
            step(cl, s, k, hb, el).await;
        }
        let dt = d(s, |s| draw_dt(s, hb, el));
        d(s, |s| s.end());
        if dt > 0 {
            exec::sleep_ns(dt).await;
        }
        check_faulted(cl);
        if w(|w| w.viol.len()) >= 30 {
            return;
        }
    }
    finale(cl, hb).await;
}

fn check_faulted(cl: &Cl) {
    let now = exec::now();
    let mut bad = vec![];
    w(|w| {
        for id in &cl.ids {
            if let Some(s) = w.fault_report(*id) {
                w.violate(&["C18"], "fault-misreported", s);
            }
            let nd = &w.nodes[id];
            if !nd.alive || exec::is_paused(nd.group) {
                continue;
            }
            if let (Some((k, _, t)), Some(r)) = (nd.faulted, &nd.raft) {
                if now > t + 5_000_000_000 && nd.started_at < t && r.metrics().borrow_watched().running_state.is_ok() {
                    bad.push((*id, k, t));
                }
            }
        }
        for (id, k, t) in bad {
            w.violate(&["C18"], &format!("runs-after-fault-{k:?}"), format!("n{id} still reports running {:.1} s after its storage failed at {k:?}", (now - t) as f64 / 1e9));
            w.n(id).faulted.as_mut().unwrap().2 = u64::MAX / 2;
        }
    });
}

impl World {
    /// A node stopped by a storage failure says so.
    fn fault_report(&self, id: u64) -> Option<String> {
        let nd = &self.nodes[&id];
        let (k, _, _) = nd.faulted?;
        if !nd.alive || nd.shutdown {
            return None;
        }
        match &nd.raft.as_ref()?.metrics().borrow_watched().running_state {
            Ok(()) | Err(Fatal::StorageError(_)) => None,
            Err(e) => Some(format!("n{id}: its storage failed at {k:?}, but its metrics report: {e}")),
        }
    }
}

async fn step(cl: &mut Cl, s: &S, k: K, hb: u64, el: u64) {
    let _ = el;
    match k {
        K::Write | K::WriteFf => {
            if let Some(n) = cl.pick_target(s) {
                let key = d(s, |s| s.draw(5)) as u8;
                cl.write(n, key, k == K::WriteFf);
            }
        }
        K::Burst => {
            if let Some(n) = cl.pick_target(s) {
                let c = match d(s, |s| s.weighted(&[14, 1])) {
                    0 => 1 + d(s, |s| s.draw(12)),
                    // more than any internal chunk of logs
                    _ => 60 + d(s, |s| s.draw(120)),
                };
                cl.burst(n, c);
            }
        }
        K::Read | K::ReadId => {
            if let Some(n) = cl.pick_target(s) {
                cl.read(n, k == K::ReadId);
            }
        }
        K::Change => {
            if let Some(n) = cl.pick_target(s) {
                let ids = cl.ids.clone();
                let base: BTreeSet<u64> = w(|w| w.nodes[&n].effective_membership().1.voter_ids().collect());
                let retain = d(s, |s| s.bool());
                let ch = d(s, |s| match s.weighted(&[6, 2, 2, 2]) {
                    0 => ChangeMembers::ReplaceAllVoters(draw_subset(s, &ids, &base)),
                    1 => ChangeMembers::AddVoterIds([*s.pick(&ids)].into()),
                    2 => ChangeMembers::RemoveVoters([*s.pick(&ids)].into()),
                    _ => {
                        let x = *s.pick(&ids);
                        ChangeMembers::AddVoters([(x, node_of(x))].into())
                    }
                });
                cl.change(n, ch, retain);
            }
        }
        K::AddLearner => {
            if let Some(n) = cl.pick_target(s) {
                let id = d(s, |s| *s.pick(&cl.ids));
                let b = d(s, |s| s.bool());
                cl.add_learner(n, id, b);
            }
        }
        K::Nodes => {
            if let Some(n) = cl.pick_target(s) {
                let ids = cl.ids.clone();
                let ch = d(s, |s| {
                    let x = *s.pick(&ids);
                    match s.draw(4) {
                        0 => ChangeMembers::AddNodes([(x, node_of(x))].into()),
                        1 => ChangeMembers::SetNodes([(x, node_of(x))].into()),
                        2 => ChangeMembers::RemoveNodes([x].into()),
                        _ => ChangeMembers::ReplaceAllNodes(ids.iter().filter(|_| s.draw(4) != 3).map(|x| (*x, node_of(*x))).collect()),
                    }
                });
                let retain = d(s, |s| s.bool());
                cl.change(n, ch, retain);
            }
        }
        K::Init => {
            if let Some(n) = cl.pick_any(s) {
                // other configs than the cluster's own are only offered to nodes that will refuse them
                let own = d(s, |s| s.draw(3)) != 2;
                let virgin = w(|w| {
                    let nd = w.n(n);
                    nd.mem.last().is_none()
                });
                let mut m: BTreeMap<u64, openraft::BasicNode> = cl.init_voters.iter().map(|x| (*x, node_of(*x))).collect();
                if !own {
                    if virgin {
                        m.remove(&n);
                    } else {
                        m.insert(n, node_of(n));
                    }
                }
                // A blank node outside the founding config must not found a second cluster.
                let foreign = virgin && m.contains_key(&n) && w(|w| w.all_memberships.keys().any(|k| k.index > 0));
                if !foreign {
                    cl.initialize(n, m);
                }
            }
        }
        K::Elect | K::Heartbeat | K::Snapshot => {
            if let Some(n) = if d(s, |s| s.bool()) { cl.pick_any(s) } else { cl.pick_target(s) } {
                let r = raft(n).unwrap();
                let inc = cl.inc(n);
                if k == K::Elect {
                    w(|w| {
                        w.n(n).elect_triggered_at = Some(exec::now());
                        w.n(n).user_elect_at = Some(exec::now());
                    });
                }
                w(|w| w.class(&format!("op_trigger_{k:?}")));
                cl.api(format!("trigger {k:?}"), n, async move {
                    match k {
                        K::Elect => r.trigger().elect().await,
                        K::Heartbeat => r.trigger().heartbeat().await,
                        _ => r.trigger().snapshot().await,
                    }
                }, move |r| {
                    if let Err(f) = r {
                        w(|w| fatal_ok(w, n, inc, "trigger", &f));
                    }
                });
            }
        }
        K::Purge => {
            if let Some(n) = cl.pick_any(s) {
                let r = raft(n).unwrap();
                let inc = cl.inc(n);
                let last = w(|w| nx(&w.n(n).mem.last()));
                let upto = d(s, |s| s.draw(last + 3));
                w(|w| w.class("op_trigger_purge"));
                cl.api(format!("trigger purge {upto}"), n, async move { r.trigger().purge_log(upto).await }, move |r| {
                    if let Err(f) = r {
                        w(|w| fatal_ok(w, n, inc, "purge_log", &f));
                    }
                });
            }
        }
        K::Transfer => {
            if let Some(n) = cl.pick_target(s) {
                let r = raft(n).unwrap();
                let inc = cl.inc(n);
                let to = d(s, |s| *s.pick(&cl.ids));
                w(|w| {
                    w.class("op_transfer");
                    w.transfer_targets.push((n, to, exec::now()));
                    let nd = w.n(n);
                    // the leader itself gives up its lease
                    if let Some(v) = nd.mem.vote {
                        if !nd.lease_broken.contains(&v) {
                            nd.lease_broken.push(v);
                        }
                    }
                });
                cl.api(format!("trigger transfer_leader {to}"), n, async move { r.trigger().transfer_leader(to).await }, move |r| {
                    if let Err(f) = r {
                        w(|w| fatal_ok(w, n, inc, "transfer_leader", &f));
                    }
                });
                let quiet = w(|w| w.quiet_for_transfer(n, to));
                if let Some((voters, v, last)) = quiet {
                    let (limit, room, seen, t0) = w(|w| {
                        w.class("quiet_transfer");
                        (w.net.delay_max_us * 12_000 + 20_000_000, w.cfg.el_min * 500_000, w.leaders.len(), exec::now())
                    });
                    if limit <= room {
                        exec::sleep_ns(limit).await;
                        w(|w| {
                            // Something else may have happened meanwhile.
                            let still = w.net.cut.is_empty()
                                && !w.any_fault
                                && w.nodes[&n].mem.last() == last
                                && voters.iter().all(|x| {
                                    let y = &w.nodes[x];
                                    let c = y.mem.vote.and_then(|v| vote_node(&v));
                                    y.alive && !y.shutdown && y.raft.is_some() && y.user_elect_at.map(|e| e + w.cfg.el_max * 3_000_000 < t0).unwrap_or(true) && (c == Some(n) || c == Some(to))
                                });
                            if w.leaders.len() > seen {
                                w.class("quiet_transfer_done");
                            } else if still {
                                let m = format!("{:.1} ms after n{n} (vote {v}) was asked to hand over to n{to} no new leader exists, in a healthy cluster with equal logs", limit as f64 / 1e6);
                                w.violate(&["C23"], "transfer-not-prompt", m);
                            }
                        });
                    }
                }
            }
        }
        K::Crash | K::LeaderCrash => {
            let n = if k == K::LeaderCrash { cl.pick_target(s) } else { cl.pick_any(s) };
            if let Some(n) = n {
                cl.crash(n);
                if d(s, |s| s.draw(3)) == 0 {
                    cl.start_node(n).await;
                }
            }
        }
        K::Restart => {
            let down: Vec<u64> = cl.ids.iter().copied().filter(|n| !alive(*n)).collect();
            if !down.is_empty() {
                let n = d(s, |s| *s.pick(&down));
                cl.start_node(n).await;
            }
        }
        K::Pause => {
            if let Some(n) = if d(s, |s| s.bool()) { cl.pick_any(s) } else { cl.pick_target(s) } {
                let g = w(|w| w.n(n).group);
                exec::pause_group(g);
                w(|w| {
                    w.class("pause");
                    w.t(|| format!("n{n} PAUSE"))
                });
            }
        }
        K::Resume => {
            for n in cl.ids.clone() {
                let g = w(|w| w.n(n).group);
                if exec::is_paused(g) {
                    exec::resume_group(g);
                    w(|w| w.t(|| format!("n{n} RESUME")));
                }
            }
        }
        K::Split => {
            let mask = d(s, |s| s.draw(1 << cl.ids.len()));
            w(|w| {
                w.class("partition");
                w.net.cut.clear();
                for (i, a) in cl.ids.iter().enumerate() {
                    for (j, b) in cl.ids.iter().enumerate() {
                        if (mask >> i & 1) != (mask >> j & 1) {
                            w.net.cut.insert((*a, *b));
                        }
                    }
                }
                w.t(|| format!("SPLIT {mask:b}"));
            });
        }
        K::Isolate | K::LeaderCut => {
            let n = if k == K::LeaderCut { cl.pick_target(s) } else { Some(d(s, |s| *s.pick(&cl.ids))) };
            if let Some(n) = n {
                w(|w| {
                    w.class("isolate");
                    for b in &cl.ids {
                        if *b != n {
                            w.net.cut.insert((n, *b));
                            w.net.cut.insert((*b, n));
                        }
                    }
                    w.t(|| format!("ISOLATE n{n}"));
                });
            }
        }
        K::CutOne => {
            let a = d(s, |s| *s.pick(&cl.ids));
            let b = d(s, |s| *s.pick(&cl.ids));
            if a != b {
                w(|w| {
                    w.class("one_way_cut");
                    w.net.cut.insert((a, b));
                    w.t(|| format!("CUT n{a}->n{b}"));
                });
            }
        }
        K::Heal => w(|w| {
            w.net.cut.clear();
            w.t(|| "HEAL".into());
        }),
        K::Noise => {
            let noisy = d(s, |s| s.bool());
            let x = d(s, |s| draw_noise(s, hb, noisy));
            set_noise(x);
        }
        K::Shutdown => {
            if let Some(n) = cl.pick_any(s) {
                shutdown_node(cl, n);
            }
        }
        K::Toggle => {
            if let Some(n) = cl.pick_any(s) {
                let r = raft(n).unwrap();
                let (what, on) = d(s, |s| (s.draw(3), s.bool()));
                w(|w| {
                    w.class("toggle");
                    w.t(|| format!("n{n} runtime_config {} {on}", ["tick", "heartbeat", "elect"][what as usize]))
                });
                match what {
                    0 => r.runtime_config().tick(on),
                    1 => r.runtime_config().heartbeat(on),
                    _ => r.runtime_config().elect(on),
                }
            }
        }
        K::Fault => {
            if let Some(n) = if d(s, |s| s.bool()) { cl.pick_any(s) } else { cl.pick_target(s) } {
                let io = d(s, |s| *s.pick(&ALL_IO));
                let c = d(s, |s| s.draw(5));
                w(|w| {
                    w.n(n).inject = Some((io, c));
                    w.t(|| format!("n{n} will fail {io:?} after {c}"));
                });
            }
        }
        K::Misc => {
            if let Some(n) = cl.pick_any(s) {
                misc(cl, s, n);
            }
        }
        K::Wait => {}
    }
}

pub fn shutdown_node(cl: &Cl, n: u64) {
    let Some(r) = raft(n) else { return };
    let inc = cl.inc(n);
    w(|w| {
        w.class("op_shutdown");
        w.n(n).shutdown = true
    });
    cl.api("shutdown".into(), n, async move { r.shutdown().await }, move |res| {
        w(|w| {
            let nd = w.n(n);
            if nd.inc == inc {
                if let Err(e) = res {
                    if nd.alive {
                        let m = format!("n{n}: shutdown returns {e}");
                        w.violate(&["C27"], "shutdown-error", m);
                    }
                }
            }
        })
    });
}

fn misc(cl: &Cl, s: &S, n: u64) {
    let r = raft(n).unwrap();
    let inc = cl.inc(n);
    match d(s, |s| s.draw(6)) {
        0 => {
            cl.api("current_leader".into(), n, async move { r.current_leader().await }, move |l| {
                if let Some(l) = l {
                    w(|w| {
                        if !w.leaders.iter().any(|x| x.node == l) && w.nodes[&n].faulted.is_none() {
                            w.violate(&["C16", "C17"], "current-leader-never-led", format!("n{n}: current_leader() says {l}"));
                        }
                    })
                }
            });
        }
        1 => {
            cl.api("get_snapshot".into(), n, async move { r.get_snapshot().await }, move |res| {
                w(|w| match res {
                    Ok(Some(sn)) => {
                        w.class("get_snapshot_ok");
                        let known = w.snaps.get(&sn.meta.snapshot_id).map(|x| (x.0 == sn.meta, x.1));
                        let h = bytes_hash(sn.snapshot.get_ref());
                        if known.map(|(a, b)| !a || b != h).unwrap_or(true) {
                            w.violate(&["C12"], "get-snapshot-wrong", format!("n{n}: get_snapshot returns {} that was never built like this", sn.meta));
                        }
                    }
                    Ok(None) => {}
                    Err(RaftError::Fatal(f)) => fatal_ok(w, n, inc, "get_snapshot", &f),
                    Err(_) => {}
                })
            });
        }
        2 => {
            cl.api("with_state_machine".into(), n, async move {
                r.with_state_machine(|sm: &mut Sm| {
                    let id = sm.n;
                    Box::pin(async move { id })
                })
                .await
            }, move |res| {
                w(|w| match res {
                    Ok(Ok(x)) => {
                        w.class("with_sm_ok");
                        if x != n {
                            w.violate(&["C17"], "with-sm-wrong", format!("n{n}"));
                        }
                    }
                    Ok(Err(e)) => {
                        // the state machine worker may be gone in a stopping node
                        let nd = &w.nodes[&n];
                        if nd.alive && nd.inc == inc && !nd.shutdown && nd.faulted.is_none() {
                            w.violate(&["C17"], "with-sm-refused", format!("n{n}: {e}"));
                        }
                    }
                    Err(f) => fatal_ok(w, n, inc, "with_state_machine", &f),
                })
            });
        }
        3 => {
            cl.api("is_initialized".into(), n, async move { r.is_initialized().await }, move |res| {
                if let Err(f) = res {
                    w(|w| fatal_ok(w, n, inc, "is_initialized", &f));
                }
            });
        }
        4 => {
            let target = w(|w| nx(&w.n(n).mem.last())) + d(s, |s| s.draw(3));
            let t = d(s, |s| s.draw(2000));
            cl.api(format!("wait applied>={target}"), n, async move {
                let t0 = exec::now();
                let r = r.wait(Some(Duration::from_millis(t))).applied_index_at_least(Some(target), "wait").await;
                (r, exec::now() - t0)
            }, move |(res, el)| {
                w(|w| match res {
                    Ok(m) => {
                        w.class("wait_ok");
                        if m.last_applied.index() < Some(target) {
                            w.violate(&["C16"], "wait-unsatisfied", format!("n{n}: wait for applied>={target} returns {}", ls(&m.last_applied)));
                        }
                    }
                    Err(_) => {
                        w.class("wait_err");
                        if el > (t + 5_000) * 1_000_000 && w.nodes[&n].alive {
                            w.class("wait_late");
                        }
                    }
                })
            });
        }
        _ => {
            cl.api("with_raft_state".into(), n, async move { r.with_raft_state(|st| st.committed).await }, move |res| {
                w(|w| match res {
                    Ok(c) => {
                        if let Some(l) = c {
                            if let Some(x) = w.reference.get(l.index as usize) {
                                if x.log_id != l {
                                    let m = format!("n{n}: committed {l}, applied elsewhere as {}", x.log_id);
                                    w.violate(&["C05", "C04"], "committed-divergence", m);
                                }
                            } else if w.nodes[&n].inc == inc {
                                w.class("committed_probe");
                            }
                        }
                    }
                    Err(f) => fatal_ok(w, n, inc, "with_raft_state", &f),
                })
            });
        }
    }
}

use openraft::LogIdOptionExt;

/// Heal everything, restart everything, and demand progress.
pub async fn finale(cl: &mut Cl, hb: u64) {
    w(|w| {
        w.final_phase = true;
        w.t(|| "==== FINALE".into());
        w.net.cut.clear();
        w.cfg.store_delay = w.cfg.store_delay.min(1);
        w.cfg.unreach_hang = false;
        for nd in w.nodes.values_mut() {
            nd.inject = None;
        }
    });
    set_noise((0, 0, 50, (hb * 100).min(2000), 0, 0, 0, 0));
    for n in cl.ids.clone() {
        let (g, al, shut, fl) = w(|w| {
            let nd = w.n(n);
            (nd.group, nd.alive && nd.raft.is_some(), nd.shutdown, nd.faulted.is_some())
        });
        if exec::is_paused(g) {
            exec::resume_group(g);
        }
        if al && fl {
            exec::sleep_ms(5_500).await;
            check_faulted(cl);
        }
        if al && (shut || fl) {
            exec::sleep_ms(200).await;
            cl.crash(n);
        }
        let up = w(|w| w.n(n).alive && w.n(n).raft.is_some());
        if !up {
            cl.start_node(n).await;
        }
        if let Some(r) = raft(n) {
            r.runtime_config().tick(true);
            r.runtime_config().heartbeat(true);
            r.runtime_config().elect(true);
        }
    }
    // a cluster nobody initialized (or whose founding entry was lost) is founded now
    let founded = w(|w| w.nodes.values().any(|n| n.effective_membership().0.is_some()));
    if !founded {
        let n = *cl.init_voters.iter().next().unwrap();
        let members: BTreeMap<u64, openraft::BasicNode> = cl.init_voters.iter().map(|x| (*x, node_of(*x))).collect();
        let blank = w(|w| w.n(n).mem.vote.map(|v| vote_term(&v) == 0).unwrap_or(true));
        if !blank {
            w(|w| w.class("unfounded"));
            wind_down(cl).await;
            return;
        }
        cl.initialize(n, members);
    }
    // progress: some write succeeds
    let limit = exec::now() + (60 * cl.max_el + 20_000) * 1_000_000;
    let mut probe: Option<LogId> = None;
    while exec::now() < limit && probe.is_none() {
        exec::sleep_ms(hb).await;
        for n in cl.leaders_now() {
            let Some(r) = raft(n) else { continue };
            let op = cl.next_op;
            cl.next_op += 1;
            let res = exec::timeout_ms(3000, r.client_write(Req { op, key: 0, val: op as u32 })).await;
            if let Ok(Ok(x)) = res {
                check_write_ok(n, op, x.log_id, &x.data);
                probe = Some(x.log_id);
                break;
            }
        }
        if w(|w| !w.viol.is_empty()) && exec::now() > limit {
            break;
        }
    }
    if exec::with(|e| !e.panics.is_empty()) {
        return;
    }
    match probe {
        None => {
            let desc = describe(cl);
            // Is there a node that could win an election, judged by logs and configs alone?
            // With `excused`, the longer log of a node that is no voter of its own config does not count.
            let electable = |excused: bool| w(|w| {
                let info: BTreeMap<u64, (Option<LogId>, Membership)> = cl.ids.iter().map(|n| (*n, (w.nodes[n].mem.last().max(w.nodes[n].sm.applied), w.nodes[n].effective_membership().1))).collect();
                info.iter().any(|(c, (last, m))| {
                    m.voter_ids().any(|x| x == *c)
                        && m.get_joint_config().iter().all(|set| {
                            let ok = set
                                .iter()
                                .filter(|v| info.get(v).map(|x| x.0 <= *last || (excused && !x.1.voter_ids().any(|y| y == **v))).unwrap_or(false))
                                .count();
                            ok * 2 > set.len()
                        })
                })
            });
            let sig = if electable(false) {
                "no-progress"
            } else if electable(true) {
                "removed-voters-block-election"
            } else {
                "no-electable-node"
            };
            w(|w| w.violate(&["C15"], sig, format!("after every fault ceased no write succeeded within {} ms: {desc}", 60 * cl.max_el + 20_000)));
        }
        Some(l) => {
            let limit = exec::now() + (60 * cl.max_el + 20_000) * 1_000_000;
            let mut behind = vec![];
            while exec::now() < limit {
                let m = w(|w| w.reference.last().map(|r| r.membership.1.clone()));
                let Some(m) = m else { break };
                behind = cl.ids.iter().copied().filter(|n| m.get_node(n).is_some() && w(|w| nx(&w.n(*n).sm.applied)) <= l.index).collect();
                if behind.is_empty() {
                    break;
                }
                exec::sleep_ms(hb).await;
            }
            if !behind.is_empty() {
                let desc = describe(cl);
                w(|w| w.violate(&["C15"], "no-convergence", format!("members {behind:?} never reach the committed entry {l}: {desc}")));
            }
        }
    }
    // a quiet cluster answers reads, and they see everything
    for n in cl.leaders_now() {
        cl.read(n, false);
    }
    exec::sleep_ms(cl.max_el * 3 + 1000).await;
    check_removed(cl);
    wind_down(cl).await;
}

/// A node that has applied a config without itself does not lead any more.
fn check_removed(cl: &Cl) {
    for n in &cl.ids {
        let Some(r) = raft(*n) else { continue };
        let m = metrics_of(&r);
        w(|w| {
            let sm = &w.nodes[n].sm.membership;
            let (eff, em) = w.nodes[n].effective_membership();
            if *sm.log_id() != eff || eff.is_none() || m.running_state.is_err() {
                return;
            }
            if em.get_node(n).is_none() {
                w.class("removed_member");
                if m.state == ServerState::Leader {
                    w.violate(&["C22"], "removed-node-leads", format!("n{n} still leads though it applied {} at {}", mem_str(&em), ls(&eff)));
                }
            }
        });
    }
}

fn describe(cl: &Cl) -> String {
    let mut s = String::new();
    for n in &cl.ids {
        let m = raft(*n).map(|r| metrics_of(&r));
        w(|w| {
            let nd = w.n(*n);
            let (l, c) = nd.effective_membership();
            s.push_str(&format!(
                "n{n}: {} vote={} log={} applied={} snap={} cfg={}@{}; ",
                m.as_ref().map(|m| format!("{:?}{}", m.state, if m.running_state.is_err() { " stopped" } else { "" })).unwrap_or("down".into()),
                nd.mem.vote.map(|v| v.to_string()).unwrap_or("-".into()),
                ls(&nd.mem.last()),
                ls(&nd.sm.applied),
                ls(&nd.snap_last()),
                mem_str(&c),
                ls(&l)
            ));
        });
    }
    s
}

/// Every outstanding call must be answered; then shut every node down.
pub async fn wind_down(cl: &mut Cl) {
    let limit = exec::now() + (cl.max_el * 40 + 10_000) * 1_000_000;
    // Waits that cannot be satisfied end with shutdown; a node outside of the final config hears nothing
    // any more; everything else must be answered by now.
    let open_calls = || -> Vec<String> {
        w(|w| {
            let m = w.reference.last().map(|r| r.membership.1.clone());
            let must = |c: &Call| {
                !c.what.starts_with("wait")
                    && !c.what.starts_with("add_learner")
                    && m.as_ref().map(|m| m.get_node(&c.node).is_some()).unwrap_or(false)
            };
            w.calls.values().filter(|c| must(c)).map(|c| format!("n{} {} (since {:.1} ms)", c.node, c.what, ms(c.t))).collect()
        })
    };
    while exec::now() < limit {
        if open_calls().is_empty() {
            break;
        }
        exec::sleep_ms(50).await;
    }
    let open = open_calls();
    if !open.is_empty() && w(|w| w.viol.is_empty()) {
        w(|w| w.violate(&["C17", "C24"], "unanswered-call", format!("calls never answered on a healthy cluster: {}", open.join("; "))));
    }
    for n in cl.ids.clone() {
        let already = w(|w| w.n(n).shutdown);
        if alive(n) && !already {
            shutdown_node(cl, n);
        }
    }
    let limit = exec::now() + 20_000 * 1_000_000;
    while exec::now() < limit {
        if w(|w| w.calls.is_empty()) {
            break;
        }
        exec::sleep_ms(50).await;
    }
    let open: Vec<String> = w(|w| w.calls.values().map(|c| format!("n{} {} (since {:.1} ms)", c.node, c.what, ms(c.t))).collect());
    if !open.is_empty() && w(|w| w.viol.is_empty()) {
        w(|w| w.violate(&["C17", "C27"], "unanswered-after-shutdown", format!("calls never answered though every node is shut down: {}", open.join("; "))));
    }
    // nothing keeps running
    exec::sleep_ms(10_000).await;
    for n in cl.ids.clone() {
        let (g, al, shut) = w(|w| {
            let nd = w.n(n);
            (nd.group, nd.alive, nd.shutdown)
        });
        if al && shut {
            let t = exec::group_tasks(g);
            if t > 0 && w(|w| w.viol.is_empty()) {
                w(|w| w.violate(&["C27"], "tasks-left-after-shutdown", format!("n{n}: {t} tasks still alive 10 s after shutdown")));
            }
            if let Some(r) = raft(n) {
                let res = exec::timeout_ms(5_000, r.client_write(Req { op: 0, key: 0, val: 0 })).await;
                match res {
                    Ok(Err(RaftError::Fatal(_))) => {}
                    Ok(x) => w(|w| w.violate(&["C27", "C17"], "serves-after-shutdown", format!("n{n}: client_write after shutdown returns {:?}", x.is_ok()))),
                    Err(()) => w(|w| w.violate(&["C27", "C17"], "hangs-after-shutdown", format!("n{n}: client_write after shutdown never returns"))),
                }
            }
        }
    }
}

#[allow(dead_code)]
fn _unused(_: Viol) {}
