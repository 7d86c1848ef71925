//! The properties and how each is driven: a profile of the generated cluster histories (which operations,
//! faults and configurations are frequent), the rule for non-trivial cases, and case counts.
use crate::cluster::*;
use crate::gen::Source;
use crate::runner::*;
use crate::world::World;
use K::*;

fn has(w: &World, c: &str) -> bool {
    w.classes.get(c).copied().unwrap_or(0) > 0
}
fn cnt(w: &World, c: &str) -> u64 {
    w.classes.get(c).copied().unwrap_or(0)
}

const Q: u64 = 26_000;
const T: u64 = 600_000;
const SIM: &[&str] = &[
    "simulated runtime: one task runs at a time between awaits; real threads and data races inside a poll are not explored",
    "disk model: writes become durable in order, unflushed writes may be lost at a crash; no media corruption",
    "at most 5 nodes, at most about 50 operations per history (100 in the thorough tier), then heal and convergence",
];

macro_rules! cl {
    ($name:ident, $p:expr, $nt:expr) => {
        fn $name(s: &mut Source, c: &mut Ctx) {
            let p: Profile = $p;
            case_with(s, c, &p, $nt);
        }
    };
}

cl!(c01, Profile::base().up(&[Elect, LeaderCrash, LeaderCut, Crash, Restart, Heal], 2), |w: &World| w.leaders.len() >= 2);
cl!(c02, Profile::base().up(&[LeaderCut, Heal, WriteFf, Burst, Noise, LeaderCrash], 2), |w: &World| has(w, "truncate") || has(w, "append_conflict"));
cl!(c03, Profile::base().up(&[LeaderCut, Heal, LeaderCrash, Restart, Split], 2), |w: &World| w.leaders.len() >= 2 && w.acks > 0);
cl!(
    c04,
    {
        let mut p = Profile::base().up(&[Change, AddLearner, Isolate, Split, LeaderCrash], 2);
        p.slow_store = 850;
        p
    },
    |w: &World| cnt(w, "membership_entry") >= 2 && w.acks > 0
);
cl!(c05, Profile::base().up(&[Snapshot, Crash, Restart, LeaderCut, Heal], 2), |w: &World| w.acks > 0 && (has(w, "crash") || has(w, "snapshot_installed") || w.leaders.len() >= 2));
cl!(c06, Profile::base().up(&[Write, WriteFf, LeaderCut, LeaderCrash, Restart], 2), |w: &World| w.acks >= 2 && w.leaders.len() >= 2);
cl!(c07, Profile::base().up(&[Read, ReadId], 4).up(&[LeaderCut, LeaderCrash, Heal, Restart], 2), |w: &World| has(w, "read_ok_with_floor"));
cl!(
    c08,
    {
        let mut p = Profile::base().up(&[Elect, Crash, Restart, LeaderCrash], 3).up(&[Split, Isolate], 2);
        p.slow_store = 900;
        p
    },
    |w: &World| has(w, "crash") && w.leaders.len() >= 2
);
cl!(
    c09,
    {
        let mut p = Profile::base().up(&[Crash, Restart, Write, Burst], 2);
        p.slow_store = 950;
        p.snapshots = 650;
        p
    },
    |w: &World| has(w, "crash_lost_writes")
);
cl!(c10, Profile::base().up(&[LeaderCut, Heal, Pause, Resume, Elect, Noise], 2), |w: &World| w.leaders.len() >= 2 && (has(w, "append_higher_vote") || has(w, "vote_refused")));
cl!(c11, Profile::base().up(&[Change], 5).up(&[AddLearner, Nodes], 3).up(&[LeaderCut, LeaderCrash], 2), |w: &World| cnt(w, "membership_entry") >= 3);
cl!(
    c12,
    {
        let mut p = Profile::base().up(&[Snapshot, Purge], 3).up(&[Isolate, Heal, Crash, Restart, Burst], 2);
        p.snapshots = 900;
        p
    },
    |w: &World| has(w, "snapshot_installed")
);
cl!(
    c13,
    {
        let mut p = Profile::base().up(&[Snapshot, Purge], 4).up(&[Burst, Isolate, Heal, Crash, Restart], 2);
        p.snapshots = 900;
        p
    },
    |w: &World| has(w, "purge")
);
cl!(
    c14,
    {
        let mut p = Profile::base().up(&[Elect, CutOne, Isolate, Transfer, Pause, Resume], 3);
        p.noisy = 250;
        p
    },
    |w: &World| has(w, "refused_within_lease")
);
cl!(
    c15,
    {
        let mut p = Profile::base().up(&[Split, LeaderCut, CutOne, Noise, Crash, Pause], 2);
        p.noisy = 500;
        p
    },
    |w: &World| w.leaders.len() >= 2
);
cl!(c16, Profile::base().up(&[Misc, LeaderCut, Heal, Snapshot, Purge, Read], 2), |w: &World| cnt(w, "metrics_samples") >= 20);
cl!(c17, Profile::base().up(&[Misc, Read, ReadId, Change, LeaderCut, LeaderCrash, Shutdown], 2), |w: &World| has(w, "api_forward_named") && w.acks > 0);
cl!(c18, Profile::base().w(&[(Fault, 16)]).up(&[Restart, Snapshot], 2), |w: &World| w.classes.keys().any(|k| k.starts_with("fault:")));
cl!(
    c19,
    {
        let mut p = Profile::base().up(&[Crash, LeaderCrash, Restart], 4).up(&[Snapshot, Purge, Change], 2);
        p.snapshots = 700;
        p.slow_store = 800;
        p
    },
    |w: &World| cnt(w, "restart") >= 2
);
cl!(
    c20,
    {
        let mut p = Profile::base().up(&[Init], 12).up(&[Crash, Restart, LeaderCrash], 2);
        p.single_init = false;
        p.ops = (2, 20);
        p
    },
    |w: &World| cnt(w, "op_initialize") >= 2
);
cl!(
    c21,
    {
        let mut p = Profile::base().up(&[Snapshot, Purge, Isolate, Heal, Noise], 3).up(&[Crash, Restart, Burst], 2);
        p.v1 = 1000;
        p.snapshots = 900;
        p.noisy = 600;
        p
    },
    |w: &World| has(w, "snapshot_chunk")
);
cl!(
    c22,
    {
        let mut p = Profile::base().up(&[AddLearner, Change, Elect, Transfer], 3).up(&[LeaderCrash, LeaderCut], 2);
        p.nodes = (3, 5);
        p
    },
    |w: &World| has(w, "add_learner_ok") || cnt(w, "membership_entry") >= 3
);
cl!(
    c23,
    {
        let mut p = Profile::base().up(&[Transfer], 10).up(&[Write, Elect, LeaderCut, Crash, Restart], 1);
        p.nodes = (2, 5);
        p.v1 = 50;
        p.slow_store = 350;
        p.noisy = 250;
        p
    },
    |w: &World| has(w, "op_transfer") && w.leaders.len() >= 2
);
cl!(c24, Profile::base().up(&[Burst, WriteFf, Misc], 4), |w: &World| has(w, "op_burst") && w.acks >= 2);
cl!(
    c27,
    {
        let mut p = Profile::base().up(&[Shutdown, Misc, Nodes, Init, Toggle, Purge, Snapshot, Transfer], 3).up(&[Change, AddLearner], 2);
        p.snapshots = 700;
        p
    },
    |w: &World| w.leaders.len() >= 1
);
cl!(c28, Profile::base().up(&[Change, AddLearner, Nodes], 4).up(&[LeaderCut, LeaderCrash, Isolate], 2), |w: &World| has(w, "change_ok") || has(w, "add_learner_ok"));

#[cfg(feature = "stl")]
cl!(
    c26,
    {
        let mut p = Profile::base().up(&[Elect, Transfer, LeaderCrash, LeaderCut, Crash, Restart, Split, Heal], 2);
        p.noisy = 500;
        p
    },
    |w: &World| w.leaders.len() >= 2 && has(w, "vote_refused")
);

macro_rules! p {
    ($id:literal, $f:ident, $rule:literal) => {
        p!($id, $f, $rule, [])
    };
    ($id:literal, $f:ident, $rule:literal, [$($n:ident),*]) => {
        Prop { id: $id, run: $f, quick: Q, thorough: T, fork: true, level: "exploration", rule: $rule, assumptions: SIM, pinned: &[$((stringify!($n), crate::pinned::$n)),*] }
    };
}

macro_rules! pure {
    ($id:literal, $f:path, $q:expr, $t:expr, $rule:literal) => {
        Prop { id: $id, run: $f, quick: $q, thorough: $t, fork: false, level: "exploration", rule: $rule, assumptions: &[], pinned: &[] }
    };
}

pub static PROPS: &[Prop] = &[
    p!("C01", c01, "at least two leaders were established"),
    p!("C02", c02, "a node truncated its log or answered a conflict", [restarted_leader_reuses_log_ids]),
    p!("C03", c03, "at least two leaders were established and a write was acknowledged"),
    p!("C04", c04, "at least two membership entries were logged and a write was acknowledged"),
    p!("C05", c05, "a write was acknowledged and there was a crash, a snapshot install or a leader change"),
    p!("C06", c06, "at least two writes were acknowledged and two leaders established"),
    p!("C07", c07, "a linearizable read succeeded after some write had been acknowledged or read"),
    p!("C08", c08, "a crash happened and at least two leaders were established"),
    p!("C09", c09, "a crash lost unflushed writes"),
    p!("C10", c10, "two leaders were established and a request carrying a smaller vote (or a stale log) was refused"),
    p!("C11", c11, "at least three membership entries were logged"),
    p!("C12", c12, "a snapshot was installed on a node"),
    p!("C13", c13, "a node purged logs"),
    p!("C14", c14, "a vote request reached a node within the lease of its leader and was refused"),
    p!("C15", c15, "at least two leaders were established", [removed_voters_block_election]),
    p!("C16", c16, "at least 20 metrics changes were observed"),
    p!("C17", c17, "a call was redirected to a named leader and a write was acknowledged"),
    p!("C18", c18, "a storage operation was made to fail"),
    p!("C19", c19, "at least two restarts"),
    p!("C20", c20, "initialize was called at least twice"),
    p!("C21", c21, "a snapshot chunk was received"),
    p!("C22", c22, "a learner was added or at least three membership entries were logged"),
    p!("C23", c23, "a transfer was requested and at least two leaders were established"),
    p!("C24", c24, "a pipelined burst was submitted and at least two writes acknowledged"),
    p!("C27", c27, "a leader was established"),
    p!("C28", c28, "a change_membership or add_learner call succeeded"),
    #[cfg(feature = "stl")]
    p!("C26", c26, "built with single-term-leader: at least two leaders were established and a vote request was refused"),
    pure!("D01", crate::pure::d01, 3_000_000, 200_000_000, "the granted value advanced at least twice, or a joint quorum was tested, or a config change took a step"),
    pure!("D02", crate::pure::d02, 2_500_000, 100_000_000, "at least one change was accepted"),
    pure!("D03", crate::pure::d03, 6_000_000, 300_000_000, "the history appends, truncates and purges"),
    pure!("D04", crate::pure::d04, 1_500_000, 30_000_000, "a textual setting, a valid config, or bounds within 2 of each other"),
    pure!("D07", crate::d07::d07, 1_200_000, 40_000_000, "something was re-applied, cleaned or rebuilt, or the log holds a membership not yet applied"),
    pure!("D05", crate::pure::d05, 10_000_000, 300_000_000, "at least two of the three votes have the same term"),
];
