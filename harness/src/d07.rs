//! D07: what is derived from storage at start equals what a full scan of it says.
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::Cursor;
use std::ops::RangeBounds;
use std::sync::Arc;
use std::sync::Mutex;

use openraft::storage::IOFlushed;
use openraft::storage::LogState;
use openraft::storage::RaftLogReader;
use openraft::storage::RaftLogReaderExt;
use openraft::storage::RaftLogStorage;
use openraft::storage::RaftSnapshotBuilder;
use openraft::storage::RaftStateMachine;
use openraft::storage::StorageHelper;
use openraft::verif_hooks as vh;
use openraft::OptionalSend;

use crate::gen::mix;
use crate::gen::Source;
use crate::runner::Ctx;
use crate::types::*;

#[derive(Default, Clone)]
struct Disk {
    log: BTreeMap<u64, Entry>,
    purged: Option<LogId>,
    vote: Option<Vote>,
    committed: Option<LogId>,
    applied: Option<LogId>,
    membership: StoredMembership,
    snap: Option<SnapshotMeta>,
    // what the code did
    applied_calls: Vec<LogId>,
    max_batch: usize,
    builds: u64,
    truncated: Vec<LogId>,
    purge_calls: Vec<LogId>,
    other_writes: Vec<&'static str>,
    limit: u64,
}

impl Disk {
    fn last(&self) -> Option<LogId> {
        self.log.values().next_back().map(|e| e.log_id).or(self.purged)
    }
}

type D = Arc<Mutex<Disk>>;
#[derive(Clone)]
struct GLog(D);
struct GSm(D);
struct GB(D);

impl RaftLogReader<TC> for GLog {
    async fn try_get_log_entries<RB: RangeBounds<u64> + Clone + Debug + OptionalSend>(&mut self, range: RB) -> Result<Vec<Entry>, StorageError> {
        Ok(self.0.lock().unwrap().log.range(range).map(|(_, e)| e.clone()).collect())
    }
    async fn read_vote(&mut self) -> Result<Option<Vote>, StorageError> {
        Ok(self.0.lock().unwrap().vote)
    }
    async fn limited_get_log_entries(&mut self, start: u64, end: u64) -> Result<Vec<Entry>, StorageError> {
        let mut v = self.try_get_log_entries(start..end).await?;
        v.truncate((self.0.lock().unwrap().limit as usize).max(1));
        Ok(v)
    }
}
impl RaftLogStorage<TC> for GLog {
    type LogReader = GLog;
    async fn get_log_state(&mut self) -> Result<LogState<TC>, StorageError> {
        let d = self.0.lock().unwrap();
        Ok(LogState { last_purged_log_id: d.purged, last_log_id: d.last() })
    }
    async fn get_log_reader(&mut self) -> GLog {
        self.clone()
    }
    async fn save_vote(&mut self, _vote: &Vote) -> Result<(), StorageError> {
        self.0.lock().unwrap().other_writes.push("save_vote");
        Ok(())
    }
    async fn save_committed(&mut self, committed: Option<LogId>) -> Result<(), StorageError> {
        self.0.lock().unwrap().committed = committed;
        Ok(())
    }
    async fn read_committed(&mut self) -> Result<Option<LogId>, StorageError> {
        Ok(self.0.lock().unwrap().committed)
    }
    async fn append<I>(&mut self, _entries: I, callback: IOFlushed<TC>) -> Result<(), StorageError>
    where
        I: IntoIterator<Item = Entry> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        self.0.lock().unwrap().other_writes.push("append");
        callback.io_completed(Ok(()));
        Ok(())
    }
    async fn truncate(&mut self, log_id: LogId) -> Result<(), StorageError> {
        let mut d = self.0.lock().unwrap();
        d.truncated.push(log_id);
        d.log.split_off(&log_id.index);
        Ok(())
    }
    async fn purge(&mut self, log_id: LogId) -> Result<(), StorageError> {
        let mut d = self.0.lock().unwrap();
        d.purge_calls.push(log_id);
        d.log = d.log.split_off(&(log_id.index + 1));
        d.purged = Some(log_id);
        Ok(())
    }
}
impl RaftStateMachine<TC> for GSm {
    type SnapshotBuilder = GB;
    async fn applied_state(&mut self) -> Result<(Option<LogId>, StoredMembership), StorageError> {
        let d = self.0.lock().unwrap();
        Ok((d.applied, d.membership.clone()))
    }
    async fn apply<I>(&mut self, entries: I) -> Result<Vec<Resp>, StorageError>
    where
        I: IntoIterator<Item = Entry> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        let mut d = self.0.lock().unwrap();
        let mut out = vec![];
        for e in entries {
            d.applied_calls.push(e.log_id);
            d.applied = Some(e.log_id);
            if let Payload::Membership(m) = &e.payload {
                d.membership = StoredMembership::new(Some(e.log_id), m.clone());
            }
            out.push(Resp::default());
        }
        d.max_batch = d.max_batch.max(out.len());
        Ok(out)
    }
    async fn get_snapshot_builder(&mut self) -> GB {
        GB(self.0.clone())
    }
    async fn begin_receiving_snapshot(&mut self) -> Result<Box<Cursor<Vec<u8>>>, StorageError> {
        Ok(Box::new(Cursor::new(vec![])))
    }
    async fn install_snapshot(&mut self, _meta: &SnapshotMeta, _snapshot: Box<Cursor<Vec<u8>>>) -> Result<(), StorageError> {
        self.0.lock().unwrap().other_writes.push("install_snapshot");
        Ok(())
    }
    async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot>, StorageError> {
        let d = self.0.lock().unwrap();
        Ok(d.snap.clone().map(|meta| Snapshot { meta, snapshot: Box::new(Cursor::new(vec![])) }))
    }
}
impl RaftSnapshotBuilder<TC> for GB {
    async fn build_snapshot(&mut self) -> Result<Snapshot, StorageError> {
        let mut d = self.0.lock().unwrap();
        d.builds += 1;
        let meta = SnapshotMeta { last_log_id: d.applied, last_membership: d.membership.clone(), snapshot_id: "built".into() };
        d.snap = Some(meta.clone());
        Ok(Snapshot { meta, snapshot: Box::new(Cursor::new(vec![])) })
    }
}

fn draw_membership(s: &mut Source) -> Membership {
    let k = 1 + s.draw(2);
    let sets = (0..k).map(|_| (0..1 + s.draw(3)).map(|_| 1 + s.draw(5)).collect()).collect();
    let learners: std::collections::BTreeSet<u64> = (0..s.draw(3)).map(|_| 1 + s.draw(6)).collect();
    Membership::new(sets, learners)
}

/// `n` entries starting at index `from` after `prev`; terms grow from `term`.
fn draw_entries(s: &mut Source, from: u64, n: u64, term: &mut u64, mem_permille: u64, changes: u64) -> Vec<Entry> {
    let mut out = vec![];
    let mut node = 1 + s.draw(3);
    for i in from..from + n {
        s.begin();
        if s.permille(changes) {
            *term += 1 + s.draw(2);
            node = 1 + s.draw(3);
        }
        let l = if i == 0 { LogId::default() } else { lid(*term, node, i) };
        let payload = if i == 0 || s.permille(mem_permille) {
            Payload::Membership(draw_membership(s))
        } else if s.bool() {
            Payload::Normal(Req { op: i, key: 0, val: 0 })
        } else {
            Payload::Blank
        };
        s.end();
        out.push(Entry { log_id: l, payload });
    }
    out
}

fn membership_at(es: &[Entry], upto: u64) -> StoredMembership {
    es.iter()
        .filter(|e| e.log_id.index < upto)
        .filter_map(|e| match &e.payload {
            Payload::Membership(m) => Some(StoredMembership::new(Some(e.log_id), m.clone())),
            _ => None,
        })
        .last()
        .unwrap_or_default()
}

fn memberships(es: &BTreeMap<u64, Entry>, from: u64) -> Vec<StoredMembership> {
    es.range(from..)
        .filter_map(|(_, e)| match &e.payload {
            Payload::Membership(m) => Some(StoredMembership::new(Some(e.log_id), m.clone())),
            _ => None,
        })
        .collect()
}

fn sms(m: &StoredMembership) -> String {
    format!("{}@{}", mem_str(m.membership()), ls(m.log_id()))
}

pub fn d07(s: &mut Source, c: &mut Ctx) {
    crate::exec::init(1, false, 0);
    // the committed history
    let long = s.draw(4) == 3;
    let n = if s.draw(12) == 11 { 0 } else { 1 + s.draw(if long { 220 } else { 14 }) };
    let mem_p = *s.pick(&[0u64, 20, 150, 500]);
    let chg = *s.pick(&[0u64, 30, 200, 600]);
    let mut term = 1;
    let chain = draw_entries(s, 0, n, &mut term, mem_p, chg);
    let mut d = Disk { limit: 1 + s.draw(4), ..Default::default() };
    let at = |k: u64| if k == 0 { None } else { Some(chain[k as usize - 1].log_id) };
    // positions are counts of entries
    let applied = s.draw(n + 1);
    let ahead = s.draw(3) == 2 && applied > 0;
    let mut stale_beyond = false;
    if !ahead {
        let committed = applied + s.draw(n - applied + 1);
        let purged = s.draw(applied + 1);
        let mut t2 = term;
        let extra = s.draw(4);
        let mut es: Vec<Entry> = chain[..committed.max(applied) as usize].to_vec();
        // a suffix that is not (known to be) committed; the rest of the chain or another leader's entries
        if s.bool() {
            es.extend(chain[committed as usize..].iter().cloned());
        } else {
            let from = es.len() as u64;
            let first_is_init = from == 0;
            t2 += 1;
            es.extend(draw_entries(s, from, if first_is_init { extra.min(1) } else { extra }, &mut t2, mem_p / 2, chg));
        }
        d.log = es.into_iter().filter(|e| e.log_id.index >= purged).map(|e| (e.log_id.index, e)).collect();
        d.purged = at(purged);
        // the saved committed id may lag behind what is applied, or be absent
        d.committed = match s.draw(3) {
            0 => None,
            1 => at(committed),
            _ => at(s.draw(committed + 1)),
        };
        let snap = purged + s.draw(applied - purged + 1);
        let has = if purged > 0 { s.draw(4) != 3 } else { s.bool() };
        if snap > 0 && has {
            d.snap = Some(SnapshotMeta { last_log_id: at(snap), last_membership: membership_at(&chain, snap), snapshot_id: format!("s{snap}") });
        }
    } else {
        // a snapshot was installed and the logs it supersedes are still there
        let ap = at(applied).unwrap();
        let purged = s.draw(applied);
        // the logs agree with the chain up to `same`
        let same = purged + s.draw(applied - purged);
        let mut es: Vec<Entry> = chain[purged as usize..same as usize].to_vec();
        // and then may hold entries of an older leader, all smaller than the snapshot's last log id
        let base = if same == 0 { None } else { at(same) };
        let bt = base.map(|b| crate::world::LidExt::term(&b)).unwrap_or(0);
        let ap_t = crate::world::LidExt::term(&ap);
        let k = s.draw(6);
        if k > 0 && same > 0 && ap_t > bt {
            let t = bt + s.draw(ap_t - bt);
            let node = match base {
                Some(b) if t == bt => crate::world::LidExt::leader_id_node(&b),
                _ => 1,
            };
            for i in 0..k {
                let l = lid(t, node, same + i);
                if l >= ap {
                    break;
                }
                let payload = if s.permille(mem_p + 100) { Payload::Membership(draw_membership(s)) } else { Payload::Blank };
                es.push(Entry { log_id: l, payload });
            }
        }
        stale_beyond = es.last().map(|e| e.log_id.index > ap.index).unwrap_or(false);
        d.log = es.into_iter().map(|e| (e.log_id.index, e)).collect();
        d.purged = at(purged);
        d.committed = match s.draw(3) {
            0 => None,
            1 => at(applied),
            _ => at(s.draw(same + 1)),
        };
        let snap = applied.min(purged.max(1) + s.draw(applied));
        if s.draw(4) != 3 {
            let snap = if s.draw(3) == 2 { snap } else { applied };
            d.snap = Some(SnapshotMeta { last_log_id: at(snap), last_membership: membership_at(&chain, snap), snapshot_id: format!("s{snap}") });
        }
    }
    d.applied = at(applied);
    d.membership = membership_at(&chain, applied);
    d.vote = match s.draw(4) {
        0 => None,
        1 => Some(Vote::new(s.draw(9), 1 + s.draw(3))),
        _ => Some(Vote::new_committed(term + 1 + s.draw(3), 1 + s.draw(3))),
    };
    if d.last() < d.applied && !ahead {
        // (the log is complete in this branch)
        c.class("unexpected-ahead");
    }
    let before = d.clone();
    let last = before.last();
    let really_ahead = last < before.applied;
    c.fp(mix(mix(nx(&before.purged), nx(&last)), mix(applied, nx(&before.committed))));
    c.t(|| {
        format!(
            "purged {} log [{}] applied {} ({}) committed {} snap {} vote {:?}",
            ls(&before.purged),
            before.log.values().map(crate::world::entry_str).collect::<Vec<_>>().join(" "),
            ls(&before.applied),
            sms(&before.membership),
            ls(&before.committed),
            ls(&before.snap.as_ref().and_then(|x| x.last_log_id)),
            before.vote
        )
    });

    // reads that change nothing
    let disk: D = Arc::new(Mutex::new(d));
    let (mut log, mut sm) = (GLog(disk.clone()), GSm(disk.clone()));
    for _ in 0..2 {
        let since = s.draw(nx(&last) + 3);
        let want: Vec<StoredMembership> = {
            let v = memberships(&before.log, since);
            v[v.len().saturating_sub(2)..].to_vec()
        };
        match futures::executor::block_on(StorageHelper::new(&mut log, &mut sm).last_membership_in_log(since)) {
            Ok(got) if got == want => {}
            Ok(got) => c.fail("last-membership-in-log", format!("since {since}: {:?}, a scan finds {:?}", got.iter().map(sms).collect::<Vec<_>>(), want.iter().map(sms).collect::<Vec<_>>())),
            Err(e) => c.fail("last-membership-failed", e.to_string()),
        }
        let i = s.draw(nx(&last) + 2);
        let want = before.log.get(&i).map(|e| e.log_id);
        let got = futures::executor::block_on(log.get_log_id(i)).ok();
        let got2 = futures::executor::block_on(log.try_get_log_entry(i)).unwrap().map(|e| e.log_id);
        if got != want || got2 != want {
            c.fail("get-log-id", format!("get_log_id({i}) = {} / {}, storage holds {}", ls(&got), ls(&got2), ls(&want)));
        }
    }
    // the state a node starts from
    let st = match futures::executor::block_on(StorageHelper::new(&mut log, &mut sm).get_initial_state()) {
        Ok(x) => x,
        Err(e) => {
            c.fail("initial-state-failed", format!("a legal storage is refused: {e}"));
            return;
        }
    };
    let p = vh::state_probe(&st);
    let after = disk.lock().unwrap().clone();
    let committed = before.committed.max(before.applied);
    let want_applied: Vec<LogId> = chain.iter().map(|e| e.log_id).filter(|l| nx(&before.applied) <= l.index && Some(*l) <= committed).collect();
    let mut bad: Vec<(&str, String)> = vec![];
    macro_rules! eq {
        ($name:literal, $a:expr, $b:expr) => {
            if $a != $b {
                bad.push(($name, format!("{:?}, a full scan says {:?}", $a, $b)));
            }
        };
    }
    eq!("vote", p.vote, before.vote.unwrap_or_default());
    eq!("committed", p.committed, committed);
    eq!("applied-position", p.applied, committed);
    eq!("reapplied", after.applied_calls, want_applied);
    if after.max_batch > 64 {
        bad.push(("reapply-batch", format!("{} entries at once", after.max_batch)));
    }
    // logs superseded by the state machine are cleaned
    let (want_log, want_purged) = if really_ahead { (BTreeMap::new(), before.applied) } else { (before.log.clone(), before.purged) };
    eq!("purged", p.purged, want_purged);
    eq!("io-purged", p.io_purged, want_purged);
    eq!("purge-upto", p.purge_upto, want_purged);
    eq!("stored-log", after.log.keys().collect::<Vec<_>>(), want_log.keys().collect::<Vec<_>>());
    eq!("stored-purged", after.purged, want_purged);
    if !really_ahead && !(after.purge_calls.is_empty() && after.truncated.is_empty()) {
        bad.push(("needless-cleanup", format!("truncate {:?} purge {:?}", after.truncated, after.purge_calls)));
    }
    eq!("other-writes", after.other_writes, Vec::<&str>::new());
    let want_last = want_log.values().next_back().map(|e| e.log_id).or(want_purged);
    eq!("last-log-id", p.last, want_last);
    for i in 0..nx(&want_last) + 2 {
        let w = want_log.get(&i).map(|e| e.log_id).or(want_purged.filter(|x| x.index == i));
        let g = vh::state_log_id(&st, i);
        if w != g {
            bad.push(("log-ids", format!("index {i}: {}, storage holds {}", ls(&g), ls(&w))));
            break;
        }
    }
    // membership
    let sm_mem = membership_at(&chain, nx(&committed));
    let in_log = memberships(&want_log, nx(&committed));
    let eff = in_log.last().cloned().unwrap_or(sm_mem.clone());
    let com = if in_log.len() >= 2 { in_log[in_log.len() - 2].clone() } else { sm_mem };
    let ms = |m: &openraft::EffectiveMembership<TC>| StoredMembership::new(*m.log_id(), m.membership().clone());
    eq!("effective-membership", sms(&ms(st.membership_state.effective())), sms(&eff));
    eq!("committed-membership", sms(&ms(st.membership_state.committed())), sms(&com));
    if ms(st.membership_state.effective()) != eff || ms(st.membership_state.committed()) != com {
        bad.push(("membership-nodes", "differ".into()));
    }
    // snapshot
    let want_snap = match &before.snap {
        Some(m) => m.clone(),
        None if want_purged.is_some() => SnapshotMeta { last_log_id: committed, last_membership: membership_at(&chain, nx(&committed)), snapshot_id: "built".into() },
        None => SnapshotMeta::default(),
    };
    eq!("snapshot", st.snapshot_meta, want_snap);
    eq!("io-snapshot", p.snapshot, want_snap.last_log_id);
    for (k, b) in bad {
        c.fail(&format!("initial-{k}"), format!("{k}: {b}"));
    }
    // get_membership after that is the same
    match futures::executor::block_on(StorageHelper::new(&mut log, &mut sm).get_membership()) {
        Ok(m) => {
            if m != st.membership_state {
                c.fail("get-membership", format!("effective {} then {}", sms(&ms(st.membership_state.effective())), sms(&ms(m.effective()))));
            }
        }
        Err(e) => c.fail("get-membership-failed", e.to_string()),
    }
    if really_ahead {
        c.class("state_machine_ahead");
    }
    if stale_beyond {
        c.class("stale_logs_beyond_snapshot");
    }
    if !after.applied_calls.is_empty() {
        c.class("reapplied");
    }
    if after.applied_calls.len() > 64 {
        c.class("reapplied_several_chunks");
    }
    if after.builds > 0 {
        c.class("snapshot_rebuilt");
    }
    if in_log.len() >= 2 {
        c.class("two_memberships_in_log");
    }
    c.nontrivial = really_ahead || !after.applied_calls.is_empty() || after.builds > 0 || !in_log.is_empty();
    c.sample = format!(
        "purged {}, {} logs to {}, applied {}, saved committed {}, snapshot {}: {} re-applied, {} memberships in the log",
        ls(&before.purged),
        before.log.len(),
        ls(&last),
        ls(&before.applied),
        ls(&before.committed),
        ls(&before.snap.as_ref().and_then(|x| x.last_log_id)),
        after.applied_calls.len(),
        in_log.len()
    );
}
