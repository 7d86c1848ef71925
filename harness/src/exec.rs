//! Deterministic single-threaded executor with a virtual clock, random scheduling, task groups
//! (one per node incarnation) that can be killed or stalled, and panic capture.

use std::cell::RefCell;
use std::collections::BinaryHeap;
use std::collections::BTreeMap;
use std::cmp::Reverse;
use std::fmt;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::Mutex;
use std::task::Context;
use std::task::Poll;
use std::task::Wake;
use std::task::Waker;
use std::time::Duration;

use crate::gen::Rng;

pub type Group = u32;
pub const DRIVER: Group = 0;

type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;

struct Task {
    fut: Option<BoxFut>,
    group: Group,
    queued: bool,
}

#[derive(Default, Clone)]
struct GroupState {
    dead: bool,
    paused: bool,
    stash: Vec<u64>,
    tasks: u32,
}

pub struct PanicRec {
    pub group: Group,
    pub msg: String,
    pub loc: String,
}

pub struct Exec {
    pub now: u64,
    next_task: u64,
    tasks: BTreeMap<u64, Task>,
    ready: Vec<u64>,
    timers: BinaryHeap<Reverse<(u64, u64, TimerKey)>>,
    timer_wakers: BTreeMap<u64, Waker>,
    next_timer: u64,
    groups: Vec<GroupState>,
    pub cur_group: Group,
    pub rng: Rng,
    pub random_sched: bool,
    pub tick_ns: u64,
    pub polls: u64,
    pub panics: Vec<PanicRec>,
    polls_at_now: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct TimerKey(u64);

thread_local! {
    static EXEC: RefCell<Option<Exec>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<(String,String)>> = const { RefCell::new(None) };
}

pub const BASE: u64 = 1_000_000_000_000;

pub fn with<R>(f: impl FnOnce(&mut Exec) -> R) -> R {
    EXEC.with(|e| f(e.borrow_mut().as_mut().expect("no executor")))
}

pub fn now() -> u64 {
    with(|e| e.now)
}

/// Draw from the scheduler's generator.
pub fn rnd(n: u64) -> u64 {
    with(|e| e.rng.below(n))
}
pub fn rnd_permille(p: u64) -> bool {
    with(|e| e.rng.permille(p))
}

pub fn init(seed: u64, random_sched: bool, tick_ns: u64) {
    futures_util::set_select_seed(seed);
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("ORPBT_BT").is_ok() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
    EXEC.with(|e| {
        *e.borrow_mut() = Some(Exec {
            now: BASE,
            next_task: 1,
            tasks: BTreeMap::new(),
            ready: vec![],
            timers: BinaryHeap::new(),
            timer_wakers: BTreeMap::new(),
            next_timer: 1,
            groups: vec![GroupState::default()],
            cur_group: DRIVER,
            rng: Rng::new(seed),
            random_sched,
            tick_ns,
            polls: 0,
            panics: vec![],
            polls_at_now: 0,
        })
    });
}

pub fn take_panic() -> Option<(String, String)> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

pub fn new_group() -> Group {
    with(|e| {
        e.groups.push(GroupState::default());
        (e.groups.len() - 1) as Group
    })
}

/// Number of live tasks in a group.
pub fn group_tasks(g: Group) -> u32 {
    with(|e| e.groups[g as usize].tasks)
}

pub fn kill_group(g: Group) {
    let dropped: Vec<BoxFut> = with(|e| {
        e.groups[g as usize].dead = true;
        let ids: Vec<u64> = {
            let mut v: Vec<u64> = e.tasks.iter().filter(|(_, t)| t.group == g).map(|(i, _)| *i).collect();
            v.sort();
            v
        };
        let mut out = vec![];
        for i in ids {
            if let Some(mut t) = e.tasks.remove(&i) {
                if let Some(f) = t.fut.take() {
                    out.push(f);
                }
            }
        }
        e.groups[g as usize].tasks = 0;
        out
    });
    let prev = with(|e| std::mem::replace(&mut e.cur_group, g));
    for f in dropped {
        let _ = std::panic::catch_unwind(AssertUnwindSafe(move || drop(f)));
    }
    with(|e| e.cur_group = prev);
}

pub fn is_dead(g: Group) -> bool {
    with(|e| e.groups[g as usize].dead)
}

pub fn pause_group(g: Group) {
    with(|e| e.groups[g as usize].paused = true);
}
pub fn resume_group(g: Group) {
    with(|e| {
        let gs = &mut e.groups[g as usize];
        gs.paused = false;
        let st = std::mem::take(&mut gs.stash);
        e.ready.extend(st);
    });
}
pub fn is_paused(g: Group) -> bool {
    with(|e| e.groups[g as usize].paused)
}

struct TaskWaker(u64);
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        let _ = EXEC.try_with(|e| {
            if let Ok(mut b) = e.try_borrow_mut() {
                if let Some(ex) = b.as_mut() {
                    ex.wake(self.0);
                }
            } else {
                // woken while the executor is borrowed: cannot happen by construction
                eprintln!("wake during exec borrow");
                std::process::abort();
            }
        });
    }
}

impl Exec {
    fn wake(&mut self, id: u64) {
        if let Some(t) = self.tasks.get_mut(&id) {
            if !t.queued {
                t.queued = true;
                let g = t.group as usize;
                if self.groups[g].paused {
                    self.groups[g].stash.push(id);
                } else {
                    self.ready.push(id);
                }
            }
        }
    }
}

pub fn spawn_in(g: Group, fut: BoxFut) {
    let rejected = with(|e| {
        if e.groups[g as usize].dead {
            return Some(fut);
        }
        let id = e.next_task;
        e.next_task += 1;
        e.tasks.insert(id, Task { fut: Some(fut), group: g, queued: false });
        e.groups[g as usize].tasks += 1;
        e.wake(id);
        None
    });
    drop(rejected);
}

pub fn current_group() -> Group {
    with(|e| e.cur_group)
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum RunEnd {
    Done,
    Deadlock,
    PollLimit,
    Livelock,
}

/// Run until `done()` is true.
pub fn run_until(mut done: impl FnMut() -> bool, max_polls: u64) -> RunEnd {
    loop {
        if done() {
            return RunEnd::Done;
        }
        // pick a task
        let picked = with(|e| {
            // fire due timers
            let mut fired = vec![];
            while let Some(Reverse((t, _, k))) = e.timers.peek().copied() {
                if t <= e.now {
                    e.timers.pop();
                    if let Some(w) = e.timer_wakers.remove(&k.0) {
                        fired.push(w);
                    }
                } else {
                    break;
                }
            }
            if !fired.is_empty() {
                return Picked::Fire(fired);
            }
            if e.ready.is_empty() {
                // advance the clock to the next live timer
                loop {
                    match e.timers.peek().copied() {
                        None => return Picked::None,
                        Some(Reverse((t, _, k))) => {
                            if e.timer_wakers.contains_key(&k.0) {
                                e.now = e.now.max(t);
                                e.polls_at_now = 0;
                                return Picked::Advance;
                            }
                            e.timers.pop();
                        }
                    }
                }
            }
            let i = if e.random_sched && e.ready.len() > 1 {
                let n = e.ready.len() as u64;
                // half the time take the oldest, else any
                if e.rng.below(3) == 0 { 0 } else { e.rng.below(n) as usize }
            } else {
                0
            };
            let id = e.ready.remove(i);
            let Some(t) = e.tasks.get_mut(&id) else { return Picked::Advance };
            let g = t.group;
            if e.groups[g as usize].paused {
                e.groups[g as usize].stash.push(id);
                return Picked::Advance;
            }
            t.queued = false;
            let fut = t.fut.take();
            e.polls += 1;
            e.polls_at_now += 1;
            if e.tick_ns > 0 {
                let d = e.rng.below(e.tick_ns + 1);
                e.now += d;
                e.polls_at_now = 0;
            }
            e.cur_group = g;
            match fut {
                Some(f) => Picked::Task(id, g, f),
                None => Picked::Advance,
            }
        });
        match picked {
            Picked::None => return RunEnd::Deadlock,
            Picked::Advance => continue,
            Picked::Fire(ws) => {
                for w in ws {
                    w.wake();
                }
            }
            Picked::Task(id, g, mut fut) => {
                let waker = Waker::from(Arc::new(TaskWaker(id)));
                let mut cx = Context::from_waker(&waker);
                let res = std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
                let (finished, drop_fut) = match res {
                    Ok(Poll::Pending) => {
                        let gone = with(|e| {
                            if let Some(t) = e.tasks.get_mut(&id) {
                                t.fut = Some(fut);
                                None
                            } else {
                                Some(fut)
                            }
                        });
                        (false, gone)
                    }
                    Ok(Poll::Ready(())) => (true, Some(fut)),
                    Err(_) => {
                        let (msg, loc) = take_panic().unwrap_or_default();
                        crate::world::try_w(|w| w.t(|| format!("!! PANIC (group {g:?}) at {loc}: {msg}")));
                        with(|e| e.panics.push(PanicRec { group: g, msg, loc }));
                        (true, Some(fut))
                    }
                };
                if finished {
                    with(|e| {
                        if e.tasks.remove(&id).is_some() {
                            e.groups[g as usize].tasks -= 1;
                        }
                    });
                }
                let _ = std::panic::catch_unwind(AssertUnwindSafe(move || drop(drop_fut)));
                with(|e| e.cur_group = DRIVER);
            }
        }
        let (polls, at_now) = with(|e| (e.polls, e.polls_at_now));
        if polls > max_polls {
            return RunEnd::PollLimit;
        }
        if at_now > 400_000 {
            return RunEnd::Livelock;
        }
    }
}

enum Picked {
    None,
    Advance,
    Fire(Vec<Waker>),
    Task(u64, Group, BoxFut),
}

/// Run a future to completion as the driver task.
pub fn block_on<T: Send + 'static>(fut: impl Future<Output = T> + Send + 'static, max_polls: u64) -> Result<T, RunEnd> {
    let out: Arc<Mutex<Option<T>>> = Arc::new(Mutex::new(None));
    let o2 = out.clone();
    let panicked = Arc::new(Mutex::new(true));
    let p2 = panicked.clone();
    spawn_in(
        DRIVER,
        Box::pin(async move {
            let v = fut.await;
            *o2.lock().unwrap() = Some(v);
            *p2.lock().unwrap() = false;
        }),
    );
    let o3 = out.clone();
    let end = run_until(
        move || o3.lock().unwrap().is_some() || with(|e| e.panics.iter().any(|p| p.group == DRIVER)),
        max_polls,
    );
    let v = out.lock().unwrap().take();
    match v {
        Some(v) => Ok(v),
        None => Err(end),
    }
}

// ---------------------------------------------------------------- timers

pub struct Sleep {
    deadline: u64,
    key: Option<u64>,
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        with(|e| {
            if e.now >= self.deadline {
                if let Some(k) = self.key.take() {
                    e.timer_wakers.remove(&k);
                }
                return Poll::Ready(());
            }
            match self.key {
                Some(k) if e.timer_wakers.contains_key(&k) => {
                    e.timer_wakers.insert(k, cx.waker().clone());
                }
                _ => {
                    let k = e.next_timer;
                    e.next_timer += 1;
                    e.timers.push(Reverse((self.deadline, k, TimerKey(k))));
                    e.timer_wakers.insert(k, cx.waker().clone());
                    self.key = Some(k);
                }
            }
            Poll::Pending
        })
    }
}

impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(k) = self.key.take() {
            let w = EXEC.try_with(|e| e.try_borrow_mut().ok().and_then(|mut b| b.as_mut().and_then(|x| x.timer_wakers.remove(&k))));
            drop(w);
        }
    }
}

pub fn sleep_until_ns(deadline: u64) -> Sleep {
    Sleep { deadline, key: None }
}
pub fn sleep_ns(d: u64) -> Sleep {
    sleep_until_ns(now().saturating_add(d))
}
pub fn sleep_ms(d: u64) -> Sleep {
    sleep_ns(d * 1_000_000)
}

pub struct YieldNow(bool);
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}
pub fn yield_now() -> YieldNow {
    YieldNow(false)
}

// ---------------------------------------------------------------- join handle

pub struct JoinState<T> {
    val: Option<Result<T, SimJoinError>>,
    waker: Option<Waker>,
}

pub struct JoinHandle<T>(Arc<Mutex<JoinState<T>>>);

#[derive(Debug, Clone)]
pub enum SimJoinError {
    Panic(String),
    Killed,
}
impl fmt::Display for SimJoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, SimJoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.0.lock().unwrap();
        if let Some(v) = s.val.take() {
            return Poll::Ready(v);
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

struct Wrapped<F: Future> {
    fut: Pin<Box<F>>,
    st: Arc<Mutex<JoinState<F::Output>>>,
    done: bool,
}

impl<F: Future> Wrapped<F> {
    fn finish(&mut self, r: Result<F::Output, SimJoinError>) {
        self.done = true;
        let w = {
            let mut s = self.st.lock().unwrap();
            s.val = Some(r);
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}

impl<F: Future> Future for Wrapped<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = &mut *self;
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| this.fut.as_mut().poll(cx)));
        match r {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => {
                this.finish(Ok(v));
                Poll::Ready(())
            }
            Err(_) => {
                let (msg, loc) = take_panic().unwrap_or_default();
                let m2 = msg.clone();
                let g = current_group();
                crate::world::try_w(|w| w.t(|| format!("!! PANIC (group {g:?}) at {loc}: {msg}")));
                with(|e| e.panics.push(PanicRec { group: g, msg, loc }));
                this.finish(Err(SimJoinError::Panic(m2)));
                Poll::Ready(())
            }
        }
    }
}

impl<F: Future> Drop for Wrapped<F> {
    fn drop(&mut self) {
        if !self.done {
            self.finish(Err(SimJoinError::Killed));
        }
    }
}
impl<F: Future> Unpin for Wrapped<F> {}

pub fn spawn_join<F>(g: Group, fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let st = Arc::new(Mutex::new(JoinState { val: None, waker: None }));
    let w = Wrapped { fut: Box::pin(fut), st: st.clone(), done: false };
    spawn_in(g, Box::pin(w));
    JoinHandle(st)
}

// ---------------------------------------------------------------- openraft runtime

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SimInstant(pub u64);

impl fmt::Debug for SimInstant {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "@{}us", (self.0 - BASE.min(self.0)) / 1000)
    }
}
impl std::ops::Add<Duration> for SimInstant {
    type Output = Self;
    fn add(self, d: Duration) -> Self {
        SimInstant(self.0.checked_add(u64::try_from(d.as_nanos()).expect("instant overflow")).expect("instant overflow"))
    }
}
impl std::ops::AddAssign<Duration> for SimInstant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl std::ops::Sub<Duration> for SimInstant {
    type Output = Self;
    fn sub(self, d: Duration) -> Self {
        SimInstant(self.0.checked_sub(u64::try_from(d.as_nanos()).expect("instant underflow")).expect("instant underflow"))
    }
}
impl std::ops::SubAssign<Duration> for SimInstant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d;
    }
}
impl std::ops::Sub<SimInstant> for SimInstant {
    type Output = Duration;
    fn sub(self, o: SimInstant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
}
impl openraft::Instant for SimInstant {
    fn now() -> Self {
        SimInstant(now())
    }
}

#[derive(Debug, Default, PartialEq, Eq)]
pub struct SimRuntime;

#[derive(Debug)]
pub struct Elapsed;
impl fmt::Display for Elapsed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "elapsed")
    }
}

pub struct Timeout<F> {
    fut: F,
    sleep: Sleep,
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        // Safety: structural pinning of `fut`; `sleep` is Unpin.
        let this = unsafe { self.get_unchecked_mut() };
        let fut = unsafe { Pin::new_unchecked(&mut this.fut) };
        if let Poll::Ready(v) = fut.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut this.sleep).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(Elapsed)),
            Poll::Pending => Poll::Pending,
        }
    }
}

pub struct SimRng;
impl rand::RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        with(|e| e.rng.next() as u32)
    }
    fn next_u64(&mut self) -> u64 {
        with(|e| e.rng.next())
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = with(|e| e.rng.next() as u8);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

// ------------------------------------------------------------------ watch channel
// tokio's watch distributes its waiters randomly; this one wakes them in the order of registration.

pub struct SimWatch;

struct WatchCore {
    version: u64,
    senders: usize,
    receivers: usize,
    wakers: Vec<Waker>,
}
struct WatchShared<T> {
    core: Mutex<WatchCore>,
    value: std::sync::RwLock<T>,
}
impl<T> WatchShared<T> {
    fn wake(&self) {
        let ws = std::mem::take(&mut self.core.lock().unwrap().wakers);
        for w in ws {
            w.wake();
        }
    }
}
pub struct SimWatchTx<T>(Arc<WatchShared<T>>);
pub struct SimWatchRx<T>(Arc<WatchShared<T>>, u64);
pub struct SimWatchRef<'a, T>(std::sync::RwLockReadGuard<'a, T>);
impl<T> std::ops::Deref for SimWatchRef<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T> Drop for SimWatchTx<T> {
    fn drop(&mut self) {
        let last = {
            let mut c = self.0.core.lock().unwrap();
            c.senders -= 1;
            c.senders == 0
        };
        if last {
            self.0.wake();
        }
    }
}
impl<T> Drop for SimWatchRx<T> {
    fn drop(&mut self) {
        self.0.core.lock().unwrap().receivers -= 1;
    }
}
impl<T> Clone for SimWatchRx<T> {
    fn clone(&self) -> Self {
        self.0.core.lock().unwrap().receivers += 1;
        SimWatchRx(self.0.clone(), self.1)
    }
}
impl openraft::async_runtime::watch::Watch for SimWatch {
    type Sender<T: OptionalSend + openraft::OptionalSync> = SimWatchTx<T>;
    type Receiver<T: OptionalSend + openraft::OptionalSync> = SimWatchRx<T>;
    type Ref<'a, T: OptionalSend + 'a> = SimWatchRef<'a, T>;
    fn channel<T: OptionalSend + openraft::OptionalSync>(init: T) -> (Self::Sender<T>, Self::Receiver<T>) {
        let sh = Arc::new(WatchShared {
            core: Mutex::new(WatchCore { version: 0, senders: 1, receivers: 1, wakers: vec![] }),
            value: std::sync::RwLock::new(init),
        });
        (SimWatchTx(sh.clone()), SimWatchRx(sh, 0))
    }
}
impl<T: OptionalSend + openraft::OptionalSync> openraft::async_runtime::watch::WatchSender<SimWatch, T> for SimWatchTx<T> {
    fn send(&self, value: T) -> Result<(), openraft::async_runtime::watch::SendError<T>> {
        if self.0.core.lock().unwrap().receivers == 0 {
            return Err(openraft::async_runtime::watch::SendError(value));
        }
        *self.0.value.write().unwrap() = value;
        self.0.core.lock().unwrap().version += 1;
        self.0.wake();
        Ok(())
    }
    fn send_if_modified<F>(&self, modify: F) -> bool
    where F: FnOnce(&mut T) -> bool {
        let changed = modify(&mut self.0.value.write().unwrap());
        if changed {
            self.0.core.lock().unwrap().version += 1;
            self.0.wake();
        }
        changed
    }
    fn borrow_watched(&self) -> SimWatchRef<'_, T> {
        SimWatchRef(self.0.value.read().unwrap())
    }
}
impl<T: OptionalSend + openraft::OptionalSync> openraft::async_runtime::watch::WatchReceiver<SimWatch, T> for SimWatchRx<T> {
    #[allow(refining_impl_trait)]
    fn changed(&mut self) -> impl Future<Output = Result<(), openraft::async_runtime::watch::RecvError>> + Send {
        std::future::poll_fn(move |cx| {
            let mut c = self.0.core.lock().unwrap();
            if c.version != self.1 {
                self.1 = c.version;
                return Poll::Ready(Ok(()));
            }
            if c.senders == 0 {
                return Poll::Ready(Err(openraft::async_runtime::watch::RecvError(())));
            }
            if !c.wakers.iter().any(|w| w.will_wake(cx.waker())) {
                c.wakers.push(cx.waker().clone());
            }
            Poll::Pending
        })
    }
    fn borrow_watched(&self) -> SimWatchRef<'_, T> {
        SimWatchRef(self.0.value.read().unwrap())
    }
}

type Tk = openraft::TokioRuntime;
use openraft::AsyncRuntime;
use openraft::OptionalSend;

impl AsyncRuntime for SimRuntime {
    type JoinError = SimJoinError;
    type JoinHandle<T: OptionalSend + 'static> = JoinHandle<T>;
    type Sleep = Sleep;
    type Instant = SimInstant;
    type TimeoutError = Elapsed;
    type Timeout<R, T: Future<Output = R> + OptionalSend> = Timeout<T>;
    type ThreadLocalRng = SimRng;

    fn spawn<T>(future: T) -> Self::JoinHandle<T::Output>
    where
        T: Future + OptionalSend + 'static,
        T::Output: OptionalSend + 'static,
    {
        spawn_join(current_group(), future)
    }
    fn sleep(d: Duration) -> Sleep {
        sleep_ns(d.as_nanos() as u64)
    }
    fn sleep_until(deadline: SimInstant) -> Sleep {
        sleep_until_ns(deadline.0)
    }
    fn timeout<R, F: Future<Output = R> + OptionalSend>(d: Duration, fut: F) -> Timeout<F> {
        Timeout { fut, sleep: sleep_ns(u64::try_from(d.as_nanos()).unwrap_or(u64::MAX / 4)) }
    }
    fn timeout_at<R, F: Future<Output = R> + OptionalSend>(deadline: SimInstant, fut: F) -> Timeout<F> {
        Timeout { fut, sleep: sleep_until_ns(deadline.0) }
    }
    fn is_panic(e: &SimJoinError) -> bool {
        matches!(e, SimJoinError::Panic(_))
    }
    fn thread_rng() -> SimRng {
        SimRng
    }
    type Mpsc = <Tk as AsyncRuntime>::Mpsc;
    type MpscUnbounded = <Tk as AsyncRuntime>::MpscUnbounded;
    type Watch = SimWatch;
    type Oneshot = <Tk as AsyncRuntime>::Oneshot;
    type Mutex<T: OptionalSend + 'static> = <Tk as AsyncRuntime>::Mutex<T>;
}

/// Timeout helper for the driver: Err(()) when `ms` of virtual time elapse first.
pub async fn timeout_ms<F: Future>(ms: u64, fut: F) -> Result<F::Output, ()> {
    Timeout { fut, sleep: sleep_ms(ms) }.await.map_err(|_| ())
}
