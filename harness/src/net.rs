//! Simulated network: delay, loss, duplication, late delivery, partitions; with oracles on every RPC.
use std::future::Future;
use std::io::Cursor;
use std::pin::Pin;
use std::sync::Arc;
use std::time::Duration;

use openraft::error::InstallSnapshotError;
use openraft::error::NetworkError;
use openraft::error::PayloadTooLarge;
use openraft::error::RPCError;
use openraft::error::RaftError;
use openraft::error::RemoteError;
use openraft::error::ReplicationClosed;
use openraft::error::StreamingError;
use openraft::error::Unreachable;
use openraft::network::v2::RaftNetworkV2;
use openraft::network::Backoff;
use openraft::network::RPCOption;
use openraft::network::RaftNetworkFactory;
use openraft::raft::AppendEntriesRequest;
use openraft::raft::AppendEntriesResponse;
use openraft::raft::InstallSnapshotRequest;
use openraft::raft::InstallSnapshotResponse;
use openraft::raft::SnapshotResponse;
use openraft::raft::TransferLeaderRequest;
use openraft::raft::VoteRequest;
use openraft::raft::VoteResponse;
use openraft::BasicNode;
use openraft::OptionalSend;
use openraft::RaftNetwork;

use crate::exec;
use crate::types::*;
use crate::world::*;

type BF<T> = Pin<Box<dyn Future<Output = T> + Send>>;
type Handler<R> = Arc<dyn Fn(Raft) -> BF<R> + Send + Sync>;

#[derive(Debug)]
pub enum NetFail {
    Unreachable,
    Network,
    Timeout(u64, u64),
}

#[derive(Debug)]
struct E(&'static str);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for E {}

impl NetFail {
    fn rpc<T: std::error::Error>(self) -> RPCError<TC, T> {
        match self {
            NetFail::Unreachable => RPCError::Unreachable(Unreachable::new(&E("unreachable"))),
            NetFail::Network => RPCError::Network(NetworkError::new(&E("network"))),
            NetFail::Timeout(id, target) => RPCError::Timeout(openraft::error::Timeout {
                action: openraft::RPCTypes::AppendEntries,
                id,
                target,
                timeout: Duration::from_millis(1),
            }),
        }
    }
}

fn reachable(from: u64, to: u64) -> bool {
    w(|w| !w.net.cut.contains(&(from, to)) && w.nodes.get(&to).map(|n| n.alive && n.raft.is_some()).unwrap_or(false))
}

enum Fate {
    Unreachable,
    NetErr(u64),
    Lost,
    Deliver { d1: u64, d2: u64, reply_lost: bool, reset: bool, dup: Option<u64> },
}

fn decide(from: u64, to: u64) -> Fate {
    let up = reachable(from, to);
    w(|w| {
        w.net.sent += 1;
        let hang = w.cfg.unreach_hang;
        let n = &mut w.net;
        if !up {
            if hang && exec::rnd(2) == 0 {
                return Fate::Lost;
            }
            return Fate::Unreachable;
        }
        if exec::rnd_permille(n.loss) {
            n.lost += 1;
            return if exec::rnd(3) == 0 { Fate::NetErr(exec::rnd(2_000_000)) } else { Fate::Lost };
        }
        let d = |n: &NetState| 1000 * (n.delay_min_us + exec::rnd(n.delay_max_us.saturating_sub(n.delay_min_us) + 1));
        let mut d1 = d(n);
        let mut d2 = d(n);
        if exec::rnd_permille(n.late_permille) {
            let k = exec::rnd(1_500_000_000);
            if exec::rnd(3) == 0 {
                d2 += k;
            } else {
                d1 += k;
            }
        }
        let reply_lost = exec::rnd_permille(n.loss);
        let reset = exec::rnd(3) == 0;
        let dup = if exec::rnd_permille(n.dup) {
            n.dups += 1;
            Some(if exec::rnd(3) == 0 { exec::rnd(2_000_000_000) } else { exec::rnd(30_000_000) })
        } else {
            None
        };
        Fate::Deliver { d1, d2, reply_lost, reset, dup }
    })
}

/// No answer in time: the network layer gives up, reporting either kind of error; it may also give up before
/// the caller's own limit, which the caller cannot tell.
fn expired(from: u64, to: u64) -> NetFail {
    if exec::rnd(2) == 0 {
        NetFail::Timeout(from, to)
    } else {
        NetFail::Network
    }
}

/// Send one request; `h` runs on the target (with its delivery/reply oracles).
pub async fn call<R: Send + 'static>(from: u64, to: u64, ttl: Duration, h: Handler<R>, on_send: impl FnOnce()) -> Result<R, NetFail> {
    match decide(from, to) {
        Fate::Unreachable => {
            exec::sleep_ns(exec::rnd(500_000)).await;
            Err(NetFail::Unreachable)
        }
        Fate::NetErr(d) => {
            exec::sleep_ns(d).await;
            Err(NetFail::Network)
        }
        Fate::Lost => {
            exec::sleep_ns(ttl.as_nanos() as u64).await;
            Err(expired(from, to))
        }
        Fate::Deliver { d1, d2, reply_lost, reset, dup } => {
            on_send();
            let netg = w(|w| w.net.group);
            let (tx, rx) = futures::channel::oneshot::channel::<Result<R, NetFail>>();
            {
                let h = h.clone();
                exec::spawn_in(
                    netg,
                    Box::pin(async move {
                        exec::sleep_ns(d1).await;
                        if !reachable(from, to) {
                            if reset {
                                let _ = tx.send(Err(NetFail::Network));
                            } else {
                                std::mem::forget(tx);
                            }
                            return;
                        }
                        let (raft, g) = w(|w| {
                            w.net.delivered += 1;
                            let n = w.n(to);
                            (n.raft.clone().unwrap(), n.group)
                        });
                        exec::spawn_in(
                            g,
                            Box::pin(async move {
                                let fut = h(raft);
                                let r = fut.await;
                                exec::spawn_in(
                                    netg,
                                    Box::pin(async move {
                                        exec::sleep_ns(d2).await;
                                        let cut = w(|w| w.net.cut.contains(&(to, from)));
                                        if cut || reply_lost {
                                            if reset {
                                                let _ = tx.send(Err(NetFail::Network));
                                            } else {
                                                std::mem::forget(tx);
                                            }
                                            return;
                                        }
                                        let _ = tx.send(Ok(r));
                                    }),
                                );
                            }),
                        );
                    }),
                );
            }
            if let Some(dd) = dup {
                exec::spawn_in(
                    netg,
                    Box::pin(async move {
                        exec::sleep_ns(d1 + dd).await;
                        if !reachable(from, to) {
                            return;
                        }
                        let (raft, g) = w(|w| {
                            w.net.delivered += 1;
                            let n = w.n(to);
                            (n.raft.clone().unwrap(), n.group)
                        });
                        exec::spawn_in(
                            g,
                            Box::pin(async move {
                                let _ = h(raft).await;
                            }),
                        );
                    }),
                );
            }
            let sl = exec::sleep_ns(ttl.as_nanos() as u64);
            futures::pin_mut!(sl);
            match futures::future::select(rx, sl).await {
                futures::future::Either::Left((Ok(r), _)) => r,
                futures::future::Either::Left((Err(_), s)) => {
                    // the target died while handling it
                    if reset {
                        Err(NetFail::Network)
                    } else {
                        s.await;
                        Err(expired(from, to))
                    }
                }
                futures::future::Either::Right(_) => Err(expired(from, to)),
            }
        }
    }
}

// ------------------------------------------------------------------ oracles

struct At {
    ev: u64,
    t: u64,
    durable_vote: Option<Vote>,
}

fn at(n: u64) -> At {
    w(|w| {
        let ev = w.tick();
        At { ev, t: exec::now(), durable_vote: w.nodes[&n].durable.vote }
    })
}

/// The vote a reply reveals must be durable on the replier.
fn check_revealed(w: &mut World, n: u64, v: &Vote, what: &str) {
    let d = w.nodes[&n].durable.vote;
    let ok = match d {
        Some(d) => d >= uncommitted(v),
        None => *v == Vote::default() || vote_term(v) == 0,
    };
    if !ok {
        let m = format!("n{n} reveals vote {v} in a {what} while its durable vote is {:?}", d.map(|x| x.to_string()));
        w.violate(&["C08"], "vote-revealed-before-durable", m);
    }
}

/// A node that acknowledges a leader has that leader's committed vote (or a greater one) on its disk.
fn check_accepted_leader(w: &mut World, n: u64, v: &Vote, what: &str) {
    let ok = match w.nodes[&n].durable.vote {
        Some(d) => d >= *v,
        None => false,
    };
    if !ok {
        let d = w.nodes[&n].durable.vote;
        w.violate(&["C08"], "leader-acknowledged-before-durable", format!("n{n} acknowledges a {what} of leader {v} while its durable vote is {:?}", d.map(|x| x.to_string())));
    }
}

fn less(a: &Vote, b: &Vote) -> bool {
    a.partial_cmp(b) == Some(std::cmp::Ordering::Less)
}

/// Voter-side lease: does any accepted append protect a leader other than `v` at time `now`?
fn lease_of(w: &World, n: u64) -> u64 {
    let _ = n;
    w.cfg.el_max * 1_000_000
}

fn vote_reply(from: u64, n: u64, a: &At, req: &VoteRequest<TC>, resp: &VoteResponse<TC>) {
    w(|w| {
        let now = exec::now();
        w.t(|| format!("n{n} -> n{from} vote reply {} granted={} to {}", resp.vote, resp.vote_granted, req.vote));
        check_revealed(w, n, &resp.vote, "vote reply");
        if resp.vote_granted && resp.vote == req.vote {
            w.class("vote_granted");
            if let Some(d) = a.durable_vote {
                if less(&req.vote, &d) {
                    w.violate(&["C10", "C01", "C08"], "stale-candidate-granted", format!("n{n} grants {} though its durable vote was {d} already", req.vote));
                }
            }
            // candidate log at least as up to date as the voter's at some moment between delivery and reply
            let mut ok = false;
            let j = &w.nodes[&n].last_log_journal;
            let mut seen = vec![];
            for (i, (_ev, l)) in j.iter().enumerate() {
                let until = j.get(i + 1).map(|x| x.0).unwrap_or(u64::MAX);
                if until >= a.ev {
                    seen.push(*l);
                    if req.last_log_id >= *l {
                        ok = true;
                    }
                }
            }
            if !ok {
                w.violate(
                    &["C01", "C03"],
                    "granted-to-stale-log",
                    format!("n{n} grants {} with last log {} while its own last log is {}", req.vote, ls(&req.last_log_id), seen.iter().map(ls).collect::<Vec<_>>().join("/")),
                );
            }
            let term = vote_term(&req.vote);
            let c = w.granted_in_term.entry((n, term)).or_default();
            c.insert(from);
            let cs = c.clone();
            if cfg!(feature = "stl") && cs.len() > 1 {
                w.violate(&["C26", "C01"], "two-grants-in-term", format!("n{n} grants {cs:?} in term {term}"));
            }
        } else {
            w.class("vote_refused");
            let lease = lease_of(w, n);
            if let Some((deliver, obs, _)) = w.nodes[&n].last_accept {
                if now < deliver + lease && obs <= now {
                    w.class("refused_within_lease");
                }
            }
        }
    })
}

fn append_reply(from: u64, n: u64, a: &At, req: &AppendEntriesRequest<TC>, resp: &AppendEntriesResponse<TC>) {
    w(|w| {
        let now = exec::now();
        if !(req.entries.is_empty() && req.prev_log_id.is_none() && resp.is_success()) {
            w.t(|| format!("n{n} -> n{from} append reply {resp} to vote={} prev={} n={}", req.vote, ls(&req.prev_log_id), req.entries.len()));
        }
        match resp {
            AppendEntriesResponse::Success | AppendEntriesResponse::PartialSuccess(_) => {
                if let Some(d) = a.durable_vote {
                    if less(&req.vote, &d) {
                        w.violate(&["C10", "C25"], "stale-leader-accepted", format!("n{n} accepts an append under {} though its durable vote was {d} already", req.vote));
                    }
                }
                let upto: Option<LogId> = match resp {
                    AppendEntriesResponse::PartialSuccess(x) => *x,
                    _ => req.entries.last().map(|e| e.log_id).or(req.prev_log_id),
                };
                let mut missing = None;
                for l in req.prev_log_id.iter().chain(req.entries.iter().map(|e| &e.log_id)) {
                    if Some(*l) > upto {
                        continue;
                    }
                    let purged = nx(&w.nodes[&n].mem.purged) > l.index || nx(&w.nodes[&n].snap_last()) > l.index;
                    if !w.durable_since(n, l, a.ev) && !purged {
                        missing = Some(*l);
                    }
                }
                if let Some(l) = missing {
                    w.violate(&["C09", "C04", "C02"], "success-before-durable", format!("n{n} reports success upto {} to n{from} but {l} is not durable on it", ls(&upto)));
                }
                check_revealed(w, n, &req.vote, "append success");
                check_accepted_leader(w, n, &req.vote, "append");
            }
            AppendEntriesResponse::Conflict => {
                w.class("append_conflict");
                if req.prev_log_id.is_none() {
                    w.violate(&["C25", "C15"], "conflict-at-origin", format!("n{n} answers Conflict to an append at the origin"));
                }
            }
            AppendEntriesResponse::HigherVote(v) => {
                w.class("append_higher_vote");
                check_revealed(w, n, v, "append reply");
                if req.vote >= *v {
                    w.violate(&["C10", "C25"], "false-higher-vote", format!("n{n} refuses {} claiming vote {v}", req.vote));
                }
            }
        }
        if !matches!(resp, AppendEntriesResponse::HigherVote(_)) {
            let nd = w.n(n);
            let newer = nd.last_accept.map(|(d, _, _)| a.t >= d).unwrap_or(true);
            let current = nd.mem.vote.map(|v| vkey(&v) == vkey(&req.vote)).unwrap_or(false);
            if newer && current {
                nd.last_accept = Some((a.t, now, req.vote));
            }
        }
    })
}

fn snapshot_reply(from: u64, n: u64, a: &At, vote: &Vote, meta: &SnapshotMeta, resp: &Vote) {
    w(|w| {
        w.t(|| format!("n{n} -> n{from} snapshot reply {resp} to {vote} {}", ls(&meta.last_log_id)));
        // (a refusal promises nothing, and the chunked API refuses from the engine's state)
        if resp == vote {
            check_revealed(w, n, resp, "snapshot reply");
            check_accepted_leader(w, n, resp, "snapshot");
        }
        if *resp == *vote {
            if let Some(d) = a.durable_vote {
                if less(vote, &d) {
                    w.violate(&["C10"], "stale-leader-snapshot-accepted", format!("n{n} accepts a snapshot under {vote} though its durable vote was {d} already"));
                }
            }
            let l = meta.last_log_id;
            let nd = &w.nodes[&n];
            let have = nx(&nd.snap_last()).max(nx(&nd.sm.applied));
            let held = l.map(|l| w.durable_has(n, &l)).unwrap_or(true);
            if have < nx(&l) && !held {
                w.violate(&["C09", "C12"], "snapshot-success-before-installed", format!("n{n} reports the snapshot at {} as installed; it has applied {}", ls(&l), have));
            }
        }
    })
}

fn append_handler(from: u64, to: u64, req: AppendEntriesRequest<TC>) -> Handler<Result<AppendEntriesResponse<TC>, RaftError<TC>>> {
    Arc::new(move |raft: Raft| {
        let req = req.clone();
        Box::pin(async move {
            let a = at(to);
            w(|w| {
                let nd = w.n(to);
                nd.append_offered = nd.append_offered.max(req.entries.last().map(|e| e.log_id.index + 1).unwrap_or(0));
            });
            let r = raft.append_entries(req.clone()).await;
            if let Ok(resp) = &r {
                append_reply(from, to, &a, &req, resp);
            }
            r
        })
    })
}

fn vote_handler(from: u64, to: u64, req: VoteRequest<TC>) -> Handler<Result<VoteResponse<TC>, RaftError<TC>>> {
    Arc::new(move |raft: Raft| {
        let req = req.clone();
        Box::pin(async move {
            let a = at(to);
            let r = raft.vote(req.clone()).await;
            if let Ok(resp) = &r {
                vote_reply(from, to, &a, &req, resp);
            }
            r
        })
    })
}

fn mark_sent(from: u64, req: &AppendEntriesRequest<TC>) {
    w(|w| {
        for e in &req.entries {
            if let Some(r) = w.registry.get_mut(&e.log_id) {
                r.sent = true;
            } else {
                let m = format!("n{from} sends {} that no log ever held", entry_str(e));
                w.violate(&["C02", "C25"], "sends-unknown-entry", m);
            }
        }
        if let Some(d) = w.nodes[&from].durable.vote {
            if uncommitted(&req.vote) > d {
                w.violate(&["C08"], "append-before-vote-durable", format!("n{from} sends an append under {} while its durable vote is {d}", req.vote));
            }
        }
    })
}

/// A snapshot reaches node n: its log may end there before the installation finished.
fn offer(n: u64, meta: &SnapshotMeta) {
    w(|w| {
        let nd = w.n(n);
        nd.snap_offered = nd.snap_offered.max(nx(&meta.last_log_id));
        nd.offered.extend(meta.last_log_id);
    })
}

/// `to` accepted leader vote `vote` in a reply to a message sent at `sent_at`.
fn note_ack(from: u64, vote: &Vote, to: u64, sent_at: u64) {
    w(|w| {
        let x = w.answered_ok.entry((from, vkey(vote), to)).or_insert(0);
        *x = (*x).max(sent_at);
    })
}

async fn do_append(from: u64, to: u64, mut req: AppendEntriesRequest<TC>, ttl: Duration) -> Result<Result<AppendEntriesResponse<TC>, RaftError<TC>>, RPCError<TC>> {
    let (too_large, partial) = w(|w| {
        let many = req.entries.len() > 1;
        (many && exec::rnd_permille(w.net.too_large_permille), many && exec::rnd_permille(w.net.partial_permille))
    });
    if too_large {
        let k = 1 + exec::rnd(req.entries.len() as u64 - 1);
        w(|w| w.class("net_payload_too_large"));
        return Err(RPCError::PayloadTooLarge(PayloadTooLarge::new_entries_hint(k)));
    }
    let mut cut_at = None;
    if partial {
        let k = 1 + exec::rnd(req.entries.len() as u64 - 1) as usize;
        req.entries.truncate(k);
        cut_at = Some(req.entries[k - 1].log_id);
        w(|w| w.class("net_partial_success"));
    }
    let sent_at = exec::now();
    let vote = req.vote;
    let r2 = req.clone();
    let r = call(from, to, ttl, append_handler(from, to, req), move || mark_sent(from, &r2)).await.map_err(|e| e.rpc())?;
    Ok(match r {
        Ok(resp) => {
            if !matches!(resp, AppendEntriesResponse::HigherVote(_)) {
                note_ack(from, &vote, to, sent_at);
            }
            match (resp, cut_at) {
                (AppendEntriesResponse::Success, Some(c)) => Ok(AppendEntriesResponse::PartialSuccess(Some(c))),
                (r, _) => Ok(r),
            }
        }
        Err(e) => Err(e),
    })
}

async fn do_vote(from: u64, to: u64, req: VoteRequest<TC>, ttl: Duration) -> Result<Result<VoteResponse<TC>, RaftError<TC>>, RPCError<TC>> {
    w(|w| {
        if let Some(d) = w.nodes[&from].durable.vote {
            if req.vote > d {
                w.violate(&["C08"], "vote-request-before-durable", format!("n{from} asks for votes under {} while its durable vote is {d}", req.vote));
            }
        }
        let v = req.vote;
        let l = req.last_log_id;
        w.t(|| format!("n{from} -> n{to} vote request {v} last={}", ls(&l)));
    });
    let vote = req.vote;
    let r = call(from, to, ttl, vote_handler(from, to, req), || {}).await.map_err(|e| e.rpc())?;
    if let Ok(resp) = &r {
        if resp.vote_granted && resp.vote == vote {
            w(|w| {
                w.grants.entry(vkey(&vote)).or_default().insert(to);
            });
        }
    }
    Ok(r)
}

// ------------------------------------------------------------------ V2

#[derive(Clone)]
pub struct FactoryV2 {
    pub from: u64,
}
pub struct ConnV2 {
    from: u64,
    to: u64,
}

fn check_target(from: u64, to: u64, node: &BasicNode) {
    if node.addr != node_of(to).addr {
        w(|w| w.violate(&["C11", "C17"], "wrong-node-record", format!("n{from} connects to {to} with node record {node:?}")));
    }
}

impl RaftNetworkFactory<TC> for FactoryV2 {
    type Network = ConnV2;
    async fn new_client(&mut self, target: u64, node: &BasicNode) -> ConnV2 {
        check_target(self.from, target, node);
        ConnV2 { from: self.from, to: target }
    }
}

fn backoff() -> Backoff {
    Backoff::new(std::iter::repeat(Duration::from_millis(w(|w| w.cfg.backoff_ms))))
}

fn fatal_to_unreachable<T>(r: Result<T, RaftError<TC>>) -> Result<T, RPCError<TC>> {
    r.map_err(|e| RPCError::Unreachable(Unreachable::new(&e)))
}

impl RaftNetworkV2<TC> for ConnV2 {
    async fn append_entries(&mut self, rpc: AppendEntriesRequest<TC>, option: RPCOption) -> Result<AppendEntriesResponse<TC>, RPCError<TC>> {
        do_append(self.from, self.to, rpc, option.hard_ttl()).await.and_then(fatal_to_unreachable)
    }
    async fn vote(&mut self, rpc: VoteRequest<TC>, option: RPCOption) -> Result<VoteResponse<TC>, RPCError<TC>> {
        do_vote(self.from, self.to, rpc, option.hard_ttl()).await.and_then(fatal_to_unreachable)
    }
    async fn full_snapshot(
        &mut self,
        vote: Vote,
        snapshot: Snapshot,
        cancel: impl Future<Output = ReplicationClosed> + OptionalSend + 'static,
        option: RPCOption,
    ) -> Result<SnapshotResponse<TC>, StreamingError<TC>> {
        let (from, to) = (self.from, self.to);
        w(|w| w.t(|| format!("n{from} -> n{to} full snapshot {} under {vote}", ls(&snapshot.meta.last_log_id))));
        let fail = w(|w| exec::rnd_permille(w.net.snap_fail_permille));
        if fail {
            exec::sleep_ns(exec::rnd(20_000_000)).await;
            return Err(StreamingError::Network(NetworkError::new(&E("snapshot stream broke"))));
        }
        let meta = snapshot.meta.clone();
        let sent_at = exec::now();
        let bytes = Arc::new(snapshot.snapshot.into_inner());
        let h: Handler<Result<SnapshotResponse<TC>, openraft::error::Fatal<TC>>> = Arc::new(move |raft: Raft| {
            let meta = meta.clone();
            let bytes = bytes.clone();
            Box::pin(async move {
                let a = at(to);
                offer(to, &meta);
                let r = raft.install_full_snapshot(vote, Snapshot { meta: meta.clone(), snapshot: Box::new(Cursor::new(bytes.to_vec())) }).await;
                if let Ok(resp) = &r {
                    snapshot_reply(from, to, &a, &vote, &meta, &resp.vote);
                }
                r
            })
        });
        let c = call(from, to, option.hard_ttl(), h, || {});
        futures::pin_mut!(c);
        futures::pin_mut!(cancel);
        match futures::future::select(c, cancel).await {
            futures::future::Either::Left((r, _)) => match r {
                Ok(Ok(x)) => {
                    if x.vote == vote {
                        note_ack(from, &vote, to, sent_at);
                    }
                    Ok(x)
                }
                Ok(Err(e)) => Err(StreamingError::Unreachable(Unreachable::new(&e))),
                Err(NetFail::Unreachable) => Err(StreamingError::Unreachable(Unreachable::new(&E("unreachable")))),
                Err(NetFail::Timeout(..)) => Err(StreamingError::Network(NetworkError::new(&E("timeout")))),
                Err(NetFail::Network) => Err(StreamingError::Network(NetworkError::new(&E("network")))),
            },
            futures::future::Either::Right((e, _)) => Err(StreamingError::Closed(e)),
        }
    }
    async fn transfer_leader(&mut self, req: TransferLeaderRequest<TC>, option: RPCOption) -> Result<(), RPCError<TC>> {
        let (from, to) = (self.from, self.to);
        w(|w| {
            w.t(|| format!("n{from} -> n{to} transfer_leader {req}"));
            w.transfer_sent(from, req.from_leader(), *req.to_node_id(), req.last_log_id().copied());
        });
        let h: Handler<Result<(), openraft::error::Fatal<TC>>> = Arc::new(move |raft: Raft| {
            let req = req.clone();
            Box::pin(async move {
                // An explicit hand-over frees the voter from its lease from now on.
                let v = *req.from_leader();
                let named = *req.to_node_id();
                let last = req.last_log_id().copied();
                w(|w| w.note_transfer(to, &v, named, last, false));
                let r = raft.handle_transfer_leader(req).await;
                w(|w| w.note_transfer(to, &v, named, last, true));
                r
            })
        });
        match call(from, to, option.hard_ttl(), h, || {}).await {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(RPCError::Unreachable(Unreachable::new(&e))),
            Err(e) => Err(e.rpc()),
        }
    }
    fn backoff(&self) -> Backoff {
        backoff()
    }
}

// ------------------------------------------------------------------ V1

#[derive(Clone)]
pub struct FactoryV1 {
    pub from: u64,
}
pub struct ConnV1 {
    from: u64,
    to: u64,
}
impl RaftNetworkFactory<TC> for FactoryV1 {
    type Network = ConnV1;
    async fn new_client(&mut self, target: u64, node: &BasicNode) -> ConnV1 {
        check_target(self.from, target, node);
        ConnV1 { from: self.from, to: target }
    }
}

fn up<T: std::error::Error>(e: RPCError<TC>) -> RPCError<TC, T> {
    match e {
        RPCError::Timeout(x) => RPCError::Timeout(x),
        RPCError::Unreachable(x) => RPCError::Unreachable(x),
        RPCError::PayloadTooLarge(x) => RPCError::PayloadTooLarge(x),
        RPCError::Network(x) => RPCError::Network(x),
        RPCError::RemoteError(_) => unreachable!(),
    }
}

impl RaftNetwork<TC> for ConnV1 {
    async fn append_entries(&mut self, rpc: AppendEntriesRequest<TC>, option: RPCOption) -> Result<AppendEntriesResponse<TC>, RPCError<TC, RaftError<TC>>> {
        let r = do_append(self.from, self.to, rpc, option.hard_ttl()).await.map_err(up)?;
        r.map_err(|e| RPCError::RemoteError(RemoteError::new(self.to, e)))
    }
    async fn vote(&mut self, rpc: VoteRequest<TC>, option: RPCOption) -> Result<VoteResponse<TC>, RPCError<TC, RaftError<TC>>> {
        let r = do_vote(self.from, self.to, rpc, option.hard_ttl()).await.map_err(up)?;
        r.map_err(|e| RPCError::RemoteError(RemoteError::new(self.to, e)))
    }
    async fn install_snapshot(
        &mut self,
        rpc: InstallSnapshotRequest<TC>,
        option: RPCOption,
    ) -> Result<InstallSnapshotResponse<TC>, RPCError<TC, RaftError<TC, InstallSnapshotError>>> {
        let (from, to) = (self.from, self.to);
        w(|w| {
            w.class("snapshot_chunk");
            if rpc.offset == 0 || rpc.done {
                w.t(|| format!("n{from} -> n{to} snapshot chunk {} off={} len={} done={}", rpc.meta.snapshot_id, rpc.offset, rpc.data.len(), rpc.done));
            }
        });
        let sent_vote = rpc.vote;
        let h: Handler<Result<InstallSnapshotResponse<TC>, RaftError<TC, InstallSnapshotError>>> = Arc::new(move |raft: Raft| {
            let rpc = rpc.clone();
            Box::pin(async move {
                let a = at(to);
                let (vote, meta, done) = (rpc.vote, rpc.meta.clone(), rpc.done);
                offer(to, &meta);
                let r = raft.install_snapshot(rpc).await;
                if let Ok(resp) = &r {
                    if done {
                        snapshot_reply(from, to, &a, &vote, &meta, &resp.vote);
                    }
                }
                r
            })
        });
        let sent_at = exec::now();
        let r = call(from, to, option.hard_ttl(), h, || {}).await.map_err(|e| e.rpc())?;
        if let Ok(x) = &r {
            if x.vote == sent_vote {
                note_ack(from, &sent_vote, to, sent_at);
            }
        }
        r.map_err(|e| RPCError::RemoteError(RemoteError::new(to, e)))
    }
    fn backoff(&self) -> Backoff {
        backoff()
    }
}
