//! The scheduler.  `begin` opens a run; from then on every thread (other than the one
//! which called `begin`) that touches a primitive becomes a *managed* thread: managed
//! threads run one at a time and hand the token over at each lock, wait, notify and
//! explicit `yield_point`, to a thread chosen by the policy.  A run is therefore a
//! deterministic function of (seed, policy, script).  A state in which no managed thread
//! can run, and none becomes able to within a grace period, is a deadlock; a run that
//! exceeds `max_steps` is a livelock; both are given to the `on_fatal` callback.
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op { Lock, Read, Write }

#[derive(Clone, Debug)]
pub enum Policy {
    /// switch with probability num/den at each decision point
    Random { num: u32, den: u32 },
    /// PCT-like: highest priority first, priorities lowered at `changes` random steps
    Priority { changes: u32, horizon: u32 },
    /// round robin, one decision point each
    RoundRobin,
    /// no preemption (but of a thread which runs for very long)
    Follow,
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub policy: Policy,
    /// explicit choices, used before the policy takes over (thread index modulo the number of runnable threads)
    pub script: Vec<u8>,
    pub expected: usize,
    pub max_steps: u64,
    /// decide only at mutex acquisitions and waits (true), or at every primitive (false)
    pub coarse: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub steps: u64,
    pub decisions: u64,
    pub threads: usize,
    pub freerun: bool,
    pub timeouts: u64,
    /// number of runnable threads / chosen index / index of the thread which had the token (255: it cannot go on) at the first decision points
    pub trace: Vec<(u8, u8, u8)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Th { Ready, BlockedLock(usize), BlockedCv(usize), TimedCv(usize), Exited }

struct Thread { state: Th, tid: u64, prio: i64, cv: Arc<Condvar>, timed_out: bool }

struct State {
    active: bool,
    free: bool,
    started: bool,
    owner: Option<std::thread::ThreadId>,
    cfg: Option<Config>,
    epoch: u64,
    threads: Vec<Thread>,
    /// thread indices in order of creation
    order: Vec<usize>,
    running: Option<usize>,
    rng: u64,
    same: u64,
    last_reg: Option<Instant>,
    idle_since: Option<Instant>,
    last_step: Option<Instant>,
    change_at: Vec<u64>,
    low: i64,
    report: Report,
    wild_cv: Vec<(usize, u64)>,
    wild_next: u64,
    on_fatal: Option<fn(&str, &Report)>,
}

static G: Mutex<State> = Mutex::new(State {
    active: false, free: false, started: false, owner: None, cfg: None, epoch: 0,
    threads: Vec::new(), order: Vec::new(),
    running: None, rng: 1, same: 0, last_reg: None, idle_since: None, last_step: None,
    change_at: Vec::new(), low: -1,
    report: Report { steps: 0, decisions: 0, threads: 0, freerun: false, timeouts: 0, trace: Vec::new() },
    wild_cv: Vec::new(), wild_next: 1, on_fatal: None,
});
static WILD: Condvar = Condvar::new();
/// How many runs got stuck because a thread with the token blocks in something other than the primitives
/// of this crate.  Code which does that cannot be scheduled: it runs freely from the third such run on.
static OUTSIDE: AtomicUsize = AtomicUsize::new(0);

const GRACE: Duration = Duration::from_millis(1500);
const STUCK: Duration = Duration::from_millis(2000);
const TICK: Duration = Duration::from_millis(100);
const LATE: Duration = Duration::from_millis(400);

struct Slot { idx: usize, epoch: u64 }
impl Drop for Slot {
    fn drop(&mut self) { thread_exit(self.idx, self.epoch) }
}
thread_local!(static ME: RefCell<Option<Slot>> = const { RefCell::new(None) });

type Guard = MutexGuard<'static, State>;
fn lock() -> Guard { G.lock().unwrap_or_else(|e| e.into_inner()) }

impl State {
    fn rand(&mut self) -> u64 {
        // splitmix64
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 { self.rand() % n.max(1) }
    /// Hands the token to some runnable thread.  `me`: the thread giving it up (it may get it back).
    fn dispatch(&mut self, me: Option<usize>) {
        if !self.started || self.free { return; }
        self.report.steps += 1;
        self.last_step = Some(Instant::now());
        let cfg_max = self.cfg.as_ref().map_or(u64::MAX, |c| c.max_steps);
        if self.report.steps > cfg_max { self.fatal("livelock"); }
        let mut cand: Vec<usize> = self.order.iter().copied().filter(|i| self.threads[*i].state == Th::Ready).collect();
        let timed: Vec<usize> = self.order.iter().copied().filter(|i| matches!(self.threads[*i].state, Th::TimedCv(_))).collect();
        if !timed.is_empty() && (cand.is_empty() || self.below(8) == 0) { cand.extend(timed); }
        if cand.is_empty() {
            self.running = None;
            self.idle_since = Some(Instant::now());
            return;
        }
        let choice = if cand.len() == 1 { 0 } else { self.choose(&cand, me) };
        let next = cand[choice];
        if cand.len() > 1 {
            self.report.decisions += 1;
            if self.report.trace.len() < 4096 {
                let here = me.and_then(|m| cand.iter().position(|c| *c == m)).map_or(255, |p| p as u8);
                self.report.trace.push((cand.len() as u8, choice as u8, here));
            }
        }
        if Some(next) == me { self.same += 1 } else { self.same = 0 }
        if let Th::TimedCv(_) = self.threads[next].state {
            self.threads[next].state = Th::Ready;
            self.threads[next].timed_out = true;
            self.report.timeouts += 1;
        }
        self.running = Some(next);
        self.idle_since = None;
        if Some(next) != me { self.threads[next].cv.notify_one(); }
    }
    fn choose(&mut self, cand: &[usize], me: Option<usize>) -> usize {
        let d = self.report.decisions as usize;
        let cfg = self.cfg.clone_light();
        if let Some(c) = self.cfg.as_ref().and_then(|c| c.script.get(d).copied()) {
            return c as usize % cand.len();
        }
        let pos = me.and_then(|m| cand.iter().position(|c| *c == m));
        match cfg {
            Policy::Random { num, den } => match pos {
                Some(p) if self.below(den as u64) >= num as u64 => p,
                _ => self.below(cand.len() as u64) as usize,
            },
            Policy::Follow => match pos {
                Some(p) if self.same <= 2000 => p,
                Some(p) => (p + 1) % cand.len(),
                None => 0,
            },
            Policy::RoundRobin => match me {
                None => 0,
                Some(m) => cand.iter().position(|c| *c > m).unwrap_or(0),
            },
            Policy::Priority { .. } => {
                let step = self.report.decisions;
                if let Some(m) = me {
                    if self.change_at.contains(&step) || self.same > 3000 {
                        self.threads[m].prio = self.low;
                        self.low -= 1;
                        self.same = 0;
                    }
                }
                let mut best = 0;
                for i in 1..cand.len() {
                    if self.threads[cand[i]].prio > self.threads[cand[best]].prio { best = i }
                }
                best
            }
        }
    }
    fn fatal(&mut self, what: &str) -> ! {
        if let Some(f) = self.on_fatal { f(what, &self.report) }
        eprintln!("fatal: {what}");
        std::process::exit(77)
    }
    fn maybe_start(&mut self) {
        if self.started { return; }
        let enough = self.threads.len() >= self.cfg.as_ref().map_or(1, |c| c.expected);
        let late = self.last_reg.map_or(false, |t| t.elapsed() > LATE);
        if enough || late {
            self.started = true;
            if let Some(Policy::Priority { changes, horizon }) = self.cfg.as_ref().map(|c| c.policy.clone()) {
                for k in 0..self.order.len() {
                    let i = self.order[k];
                    self.threads[i].prio = 1 + self.below(1 << 20) as i64;
                }
                for _ in 0..changes { let s = self.below(horizon as u64); self.change_at.push(s); }
            }
            self.dispatch(None);
        }
    }
    fn wake(&mut self, lock_addr: usize) {
        let mut any = false;
        for t in self.threads.iter_mut() {
            if t.state == Th::BlockedLock(lock_addr) { t.state = Th::Ready; any = true; }
        }
        if any && self.running.is_none() { self.dispatch(None); }
    }
    fn go_free(&mut self) {
        self.free = true;
        self.report.freerun = true;
        for t in self.threads.iter() { t.cv.notify_all(); }
        WILD.notify_all();
    }
}
trait CloneLight { fn clone_light(&self) -> Policy; }
impl CloneLight for Option<Config> {
    fn clone_light(&self) -> Policy { self.as_ref().map_or(Policy::RoundRobin, |c| c.policy.clone()) }
}

/// Opens a scheduled run; the calling thread does not take part in it.
pub fn begin(cfg: Config, on_fatal: fn(&str, &Report)) {
    let mut g = lock();
    g.epoch += 1;
    g.rng = cfg.seed ^ 0xD1B54A32D192ED03;
    g.cfg = Some(cfg);
    g.active = true;
    g.free = false;
    g.started = false;
    g.owner = Some(std::thread::current().id());
    g.threads.clear();
    g.order.clear();
    g.running = None;
    g.same = 0;
    g.last_reg = None;
    g.idle_since = None;
    g.last_step = None;
    g.change_at.clear();
    g.low = -1;
    g.report = Report::default();
    g.on_fatal = Some(on_fatal);
    if OUTSIDE.load(SeqCst) >= 3 {
        g.active = false;
        g.report.freerun = true;
    }
}
/// Closes the run (waits briefly for the managed threads to be gone).
pub fn end() -> Report {
    let t0 = Instant::now();
    loop {
        let mut g = lock();
        if g.threads.iter().all(|t| t.state == Th::Exited) || t0.elapsed() > Duration::from_secs(2) {
            let before = g.report.freerun;
            g.active = false;
            g.go_free();
            g.report.freerun = before;
            g.report.threads = g.threads.len();
            return g.report.clone();
        }
        drop(g);
        std::thread::yield_now();
    }
}
/// Leaves the scheduler: every thread runs freely from now on.
pub fn set_free() { lock().go_free() }

/// Index of the calling thread in the current run (order of creation), if it is managed.
pub fn thread_index() -> Option<usize> {
    let me = ME.with(|m| m.borrow().as_ref().map(|s| (s.idx, s.epoch)))?;
    let g = lock();
    if g.active && g.epoch == me.1 { g.order.iter().position(|i| *i == me.0) } else { None }
}

/// The managed index of this thread, registering it when needed.  Returns with G locked;
/// when the thread is managed it also holds the token.
fn enter() -> (Guard, Option<usize>) {
    let mut g = lock();
    if !g.active || g.free || g.owner == Some(std::thread::current().id()) { return (g, None); }
    let ep = g.epoch;
    let known = ME.try_with(|m| m.borrow().as_ref().and_then(|s| if s.epoch == ep { Some(s.idx) } else { None }));
    match known {
        Err(_) => (g, None), // the thread is being torn down
        Ok(Some(i)) => {
            if g.threads[i].state == Th::Exited { return (g, None); }
            let g = wait_token(g, i);
            if g.free { (g, None) } else { (g, Some(i)) }
        }
        Ok(None) => {
            let tid = format!("{:?}", std::thread::current().id())
                .chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
            let idx = g.threads.len();
            let prio = g.below(1 << 20) as i64;
            g.threads.push(Thread { state: Th::Ready, tid, prio, cv: Arc::new(Condvar::new()), timed_out: false });
            g.order.push(idx);
            let tids: Vec<u64> = g.threads.iter().map(|t| t.tid).collect();
            g.order.sort_by_key(|i| tids[*i]);
            g.last_reg = Some(Instant::now());
            ME.with(|m| *m.borrow_mut() = Some(Slot { idx, epoch: ep }));
            if g.started { if g.running.is_none() { g.dispatch(None); } } else { g.maybe_start(); }
            let g = wait_token(g, idx);
            if g.free { (g, None) } else { (g, Some(idx)) }
        }
    }
}

/// Waits until thread `i` is runnable and has the token (or the run went free).
fn wait_token(mut g: Guard, i: usize) -> Guard {
    loop {
        if g.free {
            if !matches!(g.threads[i].state, Th::BlockedCv(_)) { return g; }
        } else if g.running == Some(i) && g.threads[i].state == Th::Ready {
            return g;
        }
        let cv = g.threads[i].cv.clone();
        let (ng, to) = cv.wait_timeout(g, TICK).unwrap_or_else(|e| e.into_inner());
        g = ng;
        if to.timed_out() && !g.free && g.active {
            if !g.started { g.maybe_start(); continue; }
            if g.running.is_none() {
                if g.idle_since.map_or(false, |t| t.elapsed() > GRACE) {
                    let ready = g.threads.iter().any(|t| t.state == Th::Ready);
                    if ready { g.dispatch(None); } else { g.fatal("deadlock"); }
                }
            } else if g.last_step.map_or(false, |t| t.elapsed() > STUCK) {
                OUTSIDE.fetch_add(1, SeqCst);
                g.go_free();
            }
        }
    }
}

fn thread_exit(idx: usize, epoch: u64) {
    let mut g = lock();
    if g.epoch != epoch || idx >= g.threads.len() { return; }
    g.threads[idx].state = Th::Exited;
    if g.active && !g.free && (g.running == Some(idx) || g.running.is_none()) {
        g.running = None;
        if g.threads.iter().any(|t| t.state != Th::Exited) { g.dispatch(None); }
    }
}

fn decision(mut g: Guard, i: usize) -> Guard {
    g.dispatch(Some(i));
    wait_token(g, i)
}

pub fn acquire(addr: usize, op: Op, take: impl Fn() -> bool) {
    let (mut g, me) = enter();
    if let Some(i) = me {
        let coarse = g.cfg.as_ref().map_or(false, |c| c.coarse);
        if !coarse || op == Op::Lock { g = decision(g, i); }
        loop {
            if take() { return; }
            if g.free { break; }
            g.threads[i].state = Th::BlockedLock(addr);
            g.dispatch(Some(i));
            g = wait_token(g, i);
            if g.free { g.threads[i].state = Th::Ready; }
        }
    }
    while !take() {
        g = WILD.wait_timeout(g, TICK).unwrap_or_else(|e| e.into_inner()).0;
    }
}
pub fn try_acquire(_addr: usize, take: impl Fn() -> bool) -> bool {
    let (mut g, me) = enter();
    if let Some(i) = me { g = decision(g, i); }
    let r = take();
    drop(g);
    r
}
pub fn release(addr: usize, rel: impl Fn()) {
    let mut g = lock();
    rel();
    if g.active { g.wake(addr); }
    drop(g);
    WILD.notify_all();
}
pub fn notify(cv: usize, all: bool) -> usize {
    let (mut g, me) = enter();
    if let Some(i) = me { g = decision(g, i); }
    let mut n = 0;
    if g.active {
        let mut idxs: Vec<usize> = g.order.iter().copied()
            .filter(|i| matches!(g.threads[*i].state, Th::BlockedCv(a) | Th::TimedCv(a) if a == cv)).collect();
        if !all && idxs.len() > 1 { let k = g.below(idxs.len() as u64) as usize; idxs = vec![idxs[k]]; }
        for i in idxs {
            g.threads[i].state = Th::Ready;
            n += 1;
            if g.free { g.threads[i].cv.notify_all(); }
        }
        if n > 0 && g.running.is_none() && g.started && !g.free { g.dispatch(None); }
    }
    if all || n == 0 {
        let before = g.wild_cv.len();
        if all { g.wild_cv.retain(|w| w.0 != cv); }
        else if let Some(p) = g.wild_cv.iter().position(|w| w.0 == cv) { g.wild_cv.remove(p); }
        n += before - g.wild_cv.len();
    }
    drop(g);
    WILD.notify_all();
    n
}
/// Releases the mutex, waits for a notification, takes the mutex again.  Returns true iff the wait timed out.
pub fn wait(cv: usize, addr: usize, timed: bool, rel: impl Fn(), take: impl Fn() -> bool) -> bool {
    let (mut g, me) = enter();
    if let Some(i) = me {
        rel();
        g.threads[i].timed_out = false;
        g.threads[i].state = if timed { Th::TimedCv(cv) } else { Th::BlockedCv(cv) };
        for t in g.threads.iter_mut() { if t.state == Th::BlockedLock(addr) { t.state = Th::Ready; } }
        g.dispatch(Some(i));
        g = wait_token(g, i);
        if g.free { g.threads[i].state = Th::Ready; }
        let out = g.threads[i].timed_out;
        loop {
            if take() { return out; }
            if g.free { break; }
            g.threads[i].state = Th::BlockedLock(addr);
            g.dispatch(Some(i));
            g = wait_token(g, i);
            if g.free { g.threads[i].state = Th::Ready; }
        }
        while !take() { g = WILD.wait_timeout(g, TICK).unwrap_or_else(|e| e.into_inner()).0; }
        return out;
    }
    let ticket = g.wild_next;
    g.wild_next += 1;
    g.wild_cv.push((cv, ticket));
    rel();
    g.wake(addr);
    WILD.notify_all();
    let t0 = Instant::now();
    let mut out = false;
    while g.wild_cv.iter().any(|w| w.1 == ticket) {
        g = WILD.wait_timeout(g, TICK).unwrap_or_else(|e| e.into_inner()).0;
        if timed && t0.elapsed() > TICK {
            out = true;
            g.wild_cv.retain(|w| w.1 != ticket);
        }
    }
    while !take() { g = WILD.wait_timeout(g, TICK).unwrap_or_else(|e| e.into_inner()).0; }
    out
}
/// An explicit decision point (used by the callbacks of the harness).
pub fn yield_point() {
    let (g, me) = enter();
    if let Some(i) = me { drop(decision(g, i)); }
}
