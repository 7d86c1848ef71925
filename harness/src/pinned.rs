//! Scripted histories: demonstrations of known findings, and regressions of repaired ones.
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::future::Future;
use std::sync::Arc;

use openraft::ChangeMembers;
use openraft::Config;
use openraft::SnapshotPolicy;

use crate::cluster::*;
use crate::exec;
use crate::runner::Ctx;
use crate::types::*;
use crate::world::*;

/// Run `f` on a quiet cluster of `n` nodes (ids from 1) founded by the first `voters` of them.
pub fn scripted<F, Fut>(ctx: &mut Ctx, n: u64, voters: u64, f: F)
where
    F: FnOnce(Cl) -> Fut + Send + 'static,
    Fut: Future<Output = ()> + Send + 'static,
{
    let (hb, el_min, el_max) = (50, 150, 300);
    #[allow(deprecated)]
    let cfg = Config {
        cluster_name: "sim".into(),
        election_timeout_min: el_min,
        election_timeout_max: el_max,
        heartbeat_interval: hb,
        snapshot_policy: SnapshotPolicy::Never,
        max_in_snapshot_log_to_keep: 1000,
        ..Default::default()
    };
    let sc = SimCfg {
        n_total: n,
        store_delay: 0,
        limited_reads: false,
        snap_pad: 0,
        hb,
        el_min,
        el_max,
        net_v1: false,
        unreach_hang: false,
        backoff_ms: 100,
        lag_threshold: cfg.replication_lag_threshold,
    };
    exec::init(7, false, 0);
    let mut world = World::new(sc, ctx.tracing);
    let netg = exec::new_group();
    let cl_group = exec::new_group();
    world.net.group = netg;
    world.net.delay_min_us = 50;
    world.net.delay_max_us = 300;
    let ids: Vec<u64> = (1..=n).collect();
    for id in &ids {
        world.nodes.insert(*id, NodeW::new(*id));
    }
    crate::world::install(world);
    let init_voters: BTreeSet<u64> = ids.iter().copied().take(voters as usize).collect();
    let cl = Cl { cfg: Arc::new(cfg), ids, cl_group, v1: false, next_op: 1, metrics: true, init_voters, max_el: el_max };
    let r = exec::block_on(
        async move {
            let mut cl = cl;
            for n in cl.ids.clone() {
                cl.start_node(n).await;
            }
            let members: BTreeMap<u64, openraft::BasicNode> = cl.init_voters.iter().map(|x| (*x, node_of(*x))).collect();
            let first = *cl.init_voters.iter().next().unwrap();
            cl.initialize(first, members);
            until(4000, || !cl.leaders_now().is_empty()).await;
            cl.next_op += 0;
            f(cl).await;
        },
        6_000_000,
    );
    finish(ctx, r.err(), |_| true);
}

/// Wait (virtual time, fine steps) until `c` holds; false on timeout.
pub async fn until(ms: u64, c: impl Fn() -> bool) -> bool {
    for _ in 0..ms * 100 {
        if c() {
            return true;
        }
        exec::sleep_ns(10_000).await;
    }
    c()
}

fn cut(a: u64, b: u64) {
    w(|w| {
        w.net.cut.insert((a, b));
        w.t(|| format!("CUT n{a}->n{b}"))
    });
}
fn cut_both(a: u64, b: u64) {
    cut(a, b);
    cut(b, a);
}
fn heal() {
    w(|w| {
        w.net.cut.clear();
        w.t(|| "HEAL".into())
    });
}

/// A leader that removes itself and is the only one to hold the final config; deposed by a higher term, it neither campaigns (it is no
/// voter of its last config) nor grants (its log is longer), while the remaining voters need its vote under the joint config.
pub fn removed_voters_block_election(ctx: &mut Ctx) {
    scripted(ctx, 2, 2, |cl| async move {
        let mut cl = cl;
        let l = cl.leaders_now()[0];
        let o = 3 - l;
        cl.write(l, 1, false);
        exec::sleep_ms(200).await;
        cl.change(l, ChangeMembers::ReplaceAllVoters([o].into()), true);
        // the moment the leader logs the uniform config, cut it off until the other has campaigned
        until(3000, || w(|w| {
            let m = w.nodes[&l].effective_membership().1;
            m.get_joint_config().len() == 1 && !m.voter_ids().any(|x| x == l)
        }))
        .await;
        cut_both(l, o);
        exec::sleep_ms(1000).await;
        finale(&mut cl, 50).await;
    });
}

/// A leader replicates an entry before its own disk holds it, loses the entry in a crash, resumes leadership under its
/// stored vote, and gives the same log id to another entry.
pub fn restarted_leader_reuses_log_ids(ctx: &mut Ctx) {
    scripted(ctx, 3, 3, |cl| async move {
        let mut cl = cl;
        let l = cl.leaders_now()[0];
        let rest: Vec<u64> = cl.ids.iter().copied().filter(|x| *x != l).collect();
        let (a, b) = (rest[0], rest[1]);
        cl.write(l, 1, false);
        exec::sleep_ms(200).await;
        w(|w| {
            let nd = w.n(l);
            nd.hold_flush = true;
            nd.lose_all = true;
        });
        cut_both(l, b);
        let before = w(|w| w.nodes[&a].mem.last());
        cl.write(l, 2, false);
        // the follower a has the entry and has not yet acknowledged it
        until(2000, || w(|w| w.nodes[&a].mem.last() > before)).await;
        cl.crash(l);
        cut_both(l, a);
        heal_pair(l, b);
        w(|w| w.n(l).hold_flush = false);
        cl.start_node(l).await;
        // resumes leadership under the stored vote; its next entry reuses the lost log id
        cl.write(l, 3, false);
        exec::sleep_ms(100).await;
        // the shared log id check of the world reports "same-log-id-different-entry"
        let hit = w(|w| {
            let hit = w.viol.iter().any(|v| v.sig == "same-log-id-different-entry");
            w.viol.retain(|v| !matches!(v.sig.as_str(), "same-log-id-different-entry" | "same-log-id-different-prev"));
            hit
        });
        if hit {
            w(|w| w.violate(&["C02"], "restarted-leader-reuses-log-ids", "a leader that lost unflushed but replicated entries in a crash resumes leadership under its stored vote and assigns the same log ids to other entries".to_string()));
        }
        // (the history is over: what follows from two entries with one log id is the same finding)
        heal();
        let _ = &mut cl;
    });
}

fn heal_pair(a: u64, b: u64) {
    w(|w| {
        w.net.cut.remove(&(a, b));
        w.net.cut.remove(&(b, a));
        w.t(|| format!("HEAL n{a}-n{b}"))
    });
}
