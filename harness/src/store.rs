//! Simulated log store and state machine over `world`.
use std::fmt::Debug;
use std::io::Cursor;
use std::ops::Bound;
use std::ops::RangeBounds;
use std::sync::Arc;

use openraft::storage::IOFlushed;
use openraft::storage::LogState;
use openraft::storage::RaftLogReader;
use openraft::storage::RaftLogStorage;
use openraft::storage::RaftSnapshotBuilder;
use openraft::storage::RaftStateMachine;
use openraft::ErrorSubject;
use openraft::ErrorVerb;
use openraft::OptionalSend;

use crate::exec;
use crate::types::*;
use crate::world::*;

fn io_err(k: Io) -> std::io::Error {
    std::io::Error::new(std::io::ErrorKind::Other, format!("injected {k:?}"))
}

fn sto(k: Io) -> StorageError {
    let (s, v) = match k {
        Io::SaveVote => (ErrorSubject::Vote, ErrorVerb::Write),
        Io::Append | Io::Flush | Io::Truncate | Io::Purge => (ErrorSubject::Logs, ErrorVerb::Write),
        Io::ReadLog => (ErrorSubject::Logs, ErrorVerb::Read),
        Io::SaveCommitted => (ErrorSubject::Store, ErrorVerb::Write),
        Io::Apply => (ErrorSubject::StateMachine, ErrorVerb::Write),
        Io::Build | Io::Install => (ErrorSubject::Snapshot(None), ErrorVerb::Write),
        Io::GetSnapshot | Io::BeginRecv => (ErrorSubject::Snapshot(None), ErrorVerb::Read),
    };
    StorageError::from_io_error(s, v, io_err(k))
}

/// Pause according to the configured storage slowness.
async fn delay() {
    let lvl = w(|w| w.cfg.store_delay);
    match lvl {
        0 => {}
        1 => {
            for _ in 0..exec::rnd(3) {
                exec::yield_now().await;
            }
        }
        2 => {
            if exec::rnd(3) == 0 {
                exec::sleep_ns(exec::rnd(3_000_000)).await;
            }
        }
        _ => {
            let d = match exec::rnd(20) {
                0 => exec::rnd(120_000_000),
                1..=8 => exec::rnd(8_000_000),
                _ => 0,
            };
            if d > 0 {
                exec::sleep_ns(d).await;
            }
        }
    }
}

fn fault(n: u64, k: Io) -> Result<(), StorageError> {
    if w(|w| w.io_fault(n, k)) {
        Err(sto(k))
    } else {
        Ok(())
    }
}

fn fire(cbs: Vec<IOFlushed<TC>>) {
    for cb in cbs {
        cb.io_completed(Ok(()));
    }
}

/// Number of queued writes up to and including the first append.
fn first_append(n: u64) -> usize {
    w(|w| {
        let nd = w.n(n);
        let mut c = 0;
        for x in nd.wal.iter() {
            c += 1;
            if matches!(x.op, WalOp::Append(_)) {
                break;
            }
        }
        c
    })
}

#[derive(Clone)]
pub struct Log {
    pub n: u64,
}

impl RaftLogReader<TC> for Log {
    async fn try_get_log_entries<RB: RangeBounds<u64> + Clone + Debug + OptionalSend>(&mut self, range: RB) -> Result<Vec<Entry>, StorageError> {
        delay().await;
        fault(self.n, Io::ReadLog)?;
        let lo = match range.start_bound() {
            Bound::Included(x) => *x,
            Bound::Excluded(x) => *x + 1,
            Bound::Unbounded => 0,
        };
        let hi = match range.end_bound() {
            Bound::Included(x) => *x + 1,
            Bound::Excluded(x) => *x,
            Bound::Unbounded => u64::MAX,
        };
        if lo >= hi {
            return Ok(vec![]);
        }
        Ok(w(|w| w.n(self.n).mem.log.range(lo..hi).map(|(_, e)| e.clone()).collect()))
    }

    async fn read_vote(&mut self) -> Result<Option<Vote>, StorageError> {
        delay().await;
        fault(self.n, Io::ReadLog)?;
        Ok(w(|w| w.n(self.n).mem.vote))
    }

    async fn limited_get_log_entries(&mut self, start: u64, end: u64) -> Result<Vec<Entry>, StorageError> {
        let mut v = self.try_get_log_entries(start..end).await?;
        if w(|w| w.cfg.limited_reads) && v.len() > 1 && exec::rnd(2) == 0 {
            let k = 1 + exec::rnd(v.len() as u64) as usize;
            v.truncate(k);
        }
        Ok(v)
    }
}

impl RaftLogStorage<TC> for Log {
    type LogReader = Log;

    async fn get_log_state(&mut self) -> Result<LogState<TC>, StorageError> {
        delay().await;
        fault(self.n, Io::ReadLog)?;
        Ok(w(|w| {
            let nd = w.n(self.n);
            LogState { last_purged_log_id: nd.mem.purged, last_log_id: nd.mem.last() }
        }))
    }

    async fn get_log_reader(&mut self) -> Log {
        self.clone()
    }

    async fn save_vote(&mut self, vote: &Vote) -> Result<(), StorageError> {
        fault(self.n, Io::SaveVote)?;
        w(|w| w.begin_save_vote(self.n, vote));
        delay().await;
        let cbs = w(|w| {
            let k = w.n(self.n).wal.len();
            w.flush(self.n, k)
        });
        fire(cbs);
        Ok(())
    }

    async fn save_committed(&mut self, committed: Option<LogId>) -> Result<(), StorageError> {
        fault(self.n, Io::SaveCommitted)?;
        if w(|w| w.n(self.n).save_committed) {
            delay().await;
            w(|w| w.save_committed_mem(self.n, &committed));
        }
        Ok(())
    }

    async fn read_committed(&mut self) -> Result<Option<LogId>, StorageError> {
        delay().await;
        Ok(w(|w| {
            let nd = w.n(self.n);
            if nd.save_committed {
                nd.mem.committed
            } else {
                None
            }
        }))
    }

    async fn append<I>(&mut self, entries: I, callback: IOFlushed<TC>) -> Result<(), StorageError>
    where
        I: IntoIterator<Item = Entry> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        let es: Vec<Entry> = entries.into_iter().collect();
        fault(self.n, Io::Append)?;
        let n = self.n;
        w(|w| w.append_mem(n, es, Some(callback)));
        let lvl = w(|w| w.cfg.store_delay);
        if w(|w| w.n(n).hold_flush) {
            return Ok(());
        }
        if lvl == 0 {
            flush_once(n);
            return Ok(());
        }
        exec::spawn_in(
            exec::current_group(),
            Box::pin(async move {
                delay().await;
                if w(|w| w.cfg.store_delay) >= 2 && exec::rnd(4) == 0 {
                    exec::sleep_ns(exec::rnd(20_000_000)).await;
                }
                flush_once(n);
            }),
        );
        if exec::rnd(3) == 0 {
            delay().await;
        }
        Ok(())
    }

    async fn truncate(&mut self, log_id: LogId) -> Result<(), StorageError> {
        delay().await;
        fault(self.n, Io::Truncate)?;
        w(|w| w.truncate_mem(self.n, &log_id));
        Ok(())
    }

    async fn purge(&mut self, log_id: LogId) -> Result<(), StorageError> {
        delay().await;
        fault(self.n, Io::Purge)?;
        w(|w| w.purge_mem(self.n, &log_id));
        Ok(())
    }
}

fn flush_once(n: u64) {
    let k = first_append(n);
    if k == 0 {
        return;
    }
    let pending = w(|w| w.n(n).wal.iter().any(|x| matches!(x.op, WalOp::Append(_)) && x.cb.is_some()));
    if pending && w(|w| w.io_fault(n, Io::Flush)) {
        // the write fails: report it, leave it queued (it may or may not survive a crash)
        let cb = w(|w| {
            let nd = w.n(n);
            nd.wal.iter_mut().find_map(|x| if matches!(x.op, WalOp::Append(_)) { x.cb.take() } else { None })
        });
        if let Some(cb) = cb {
            cb.io_completed(Err(io_err(Io::Flush)));
        }
        return;
    }
    let cbs = w(|w| w.flush(n, k));
    fire(cbs);
}

pub struct Sm {
    pub n: u64,
}

pub struct Builder {
    n: u64,
    st: SmState,
}

impl RaftSnapshotBuilder<TC> for Builder {
    async fn build_snapshot(&mut self) -> Result<Snapshot, StorageError> {
        delay().await;
        if w(|w| w.cfg.store_delay) >= 2 && exec::rnd(2) == 0 {
            exec::sleep_ns(exec::rnd(60_000_000)).await;
        }
        fault(self.n, Io::Build)?;
        let rec = w(|w| {
            let st = self.st.clone();
            w.check_state_against_reference(self.n, &st, "builds a snapshot");
            let r = w.build_snapshot_from(self.n, st);
            w.adopt_snapshot(self.n, r.clone());
            r
        });
        Ok(Snapshot { meta: rec.meta, snapshot: Box::new(Cursor::new(rec.bytes.to_vec())) })
    }
}

impl RaftStateMachine<TC> for Sm {
    type SnapshotBuilder = Builder;

    async fn applied_state(&mut self) -> Result<(Option<LogId>, StoredMembership), StorageError> {
        delay().await;
        Ok(w(|w| {
            let nd = w.n(self.n);
            (nd.sm.applied, nd.sm.membership.clone())
        }))
    }

    async fn apply<I>(&mut self, entries: I) -> Result<Vec<Resp>, StorageError>
    where
        I: IntoIterator<Item = Entry> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        let es: Vec<Entry> = entries.into_iter().collect();
        delay().await;
        fault(self.n, Io::Apply)?;
        let r = w(|w| w.sm_apply(self.n, &es));
        if exec::rnd(4) == 0 {
            delay().await;
        }
        Ok(r)
    }

    async fn get_snapshot_builder(&mut self) -> Builder {
        Builder { n: self.n, st: w(|w| w.n(self.n).sm.clone()) }
    }

    async fn begin_receiving_snapshot(&mut self) -> Result<Box<Cursor<Vec<u8>>>, StorageError> {
        delay().await;
        fault(self.n, Io::BeginRecv)?;
        Ok(Box::new(Cursor::new(vec![])))
    }

    async fn install_snapshot(&mut self, meta: &SnapshotMeta, snapshot: Box<Cursor<Vec<u8>>>) -> Result<(), StorageError> {
        delay().await;
        fault(self.n, Io::Install)?;
        let bytes = snapshot.into_inner();
        match w(|w| w.sm_install(self.n, meta, bytes)) {
            Some(()) => Ok(()),
            None => Err(sto(Io::Install)),
        }
    }

    async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot>, StorageError> {
        delay().await;
        fault(self.n, Io::GetSnapshot)?;
        Ok(w(|w| {
            w.n(self.n)
                .snap
                .as_ref()
                .map(|s| Snapshot { meta: s.meta.clone(), snapshot: Box::new(Cursor::new(Arc::as_ref(&s.bytes).clone())) })
        }))
    }
}
