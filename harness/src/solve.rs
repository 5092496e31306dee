//! Runs of the two solvers under scheduled interleavings.
use crate::model::*;
use crate::util::*;
use engineering::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Stop { Maximize, Never, Kth(usize), From(usize) }

impl Stop {
    fn name(&self) -> String {
        match self { Stop::Maximize => "maximize".to_string(), Stop::Never => "never".into(), Stop::Kth(k) => format!("at {k}"), Stop::From(k) => format!("from {k}") }
    }
}

#[derive(Clone, Debug)]
pub struct Sched { pub seed: u64, pub policy: u8, pub param: u32, pub coarse: bool, pub script: Vec<u8> }

pub struct Case {
    pub model: Model,
    /// 0 = parallel + simple frontier, 1 = parallel + no-dup frontier, 2 = barrier, 3 = parallel + some lawful frontier
    pub solver: usize,
    pub cutset: CutsetType,
    pub width: Vec<usize>,
    pub threads: usize,
    /// None: custom(threads); Some(k): custom(k).with_nb_threads(threads); Some(0): new().with_nb_threads(threads)
    pub ctor: Option<usize>,
    pub stop: Stop,
    pub sched: Sched,
    pub huge: bool,
    /// a second run of the same solver object
    pub again: Vec<Stop>,
    /// what an earlier run might have left in the frontier
    pub junk: bool,
}
pub const SOLVERS: [&str; 4] = ["simple", "nodup", "barrier", "lawful"];

/// A frontier which is as free as the trait allows: some node of the greatest bound, some duplicates united
pub struct Lawful { nodes: Vec<SubProblem<St>>, r: Rng, unite: usize }
impl Frontier for Lawful {
    type State = St;
    fn push(&mut self, n: SubProblem<St>) {
        if self.r.chance(self.unite) {
            if let Some(x) = self.nodes.iter_mut().find(|x| x.state == n.state) {
                let ub = x.ub.max(n.ub);
                if n.value > x.value { *x = n; }
                x.ub = ub;
                return;
            }
        }
        self.nodes.push(n)
    }
    fn pop(&mut self) -> Option<SubProblem<St>> {
        let top = self.nodes.iter().map(|x| x.ub).max()?;
        let at: Vec<usize> = (0..self.nodes.len()).filter(|i| self.nodes[*i].ub == top).collect();
        let i = *self.r.pick(&at);
        Some(self.nodes.swap_remove(i))
    }
    fn clear(&mut self) { self.nodes.clear() }
    fn len(&self) -> usize { self.nodes.len() }
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub fatal: String,      // "", "panic", "deadlock", "livelock", "hang"
    pub message: String,
    pub status: String,     // "none" (maximize), "proved", "interrupted"
    pub value: Option<i64>,
    pub lb: i64,
    pub ub: i64,
    pub sol: Option<Vec<(i64, i64)>>,
    pub explored: usize,
    pub explored_dd: usize,
    pub dom_calls: usize,
    pub width_calls: usize,
    pub stop_calls: usize,
    pub after: usize,
    pub fired: bool,
    pub dropped: bool,      // the frontier of the solver was not empty at the end
    pub popped: usize,
    pub sched: String,
    pub first: Option<Box<Outcome>>, // the run before this one, of the same solver object
}

pub struct Profile { pub which: u8, pub interrupts: bool, pub threads_max: usize, pub big: usize, pub huge: usize }

impl Case {
    /// which: 0 parallel, 1 barrier, 2 both
    pub fn generate(r: &mut Rng, p: &Profile) -> Case {
        let huge = p.big > 0 && r.chance(if std::env::var("HUGE").is_ok() { 100 } else { p.huge });
        // more layers than fit a byte, more nodes than fit two
        let giant = if huge { r.below(60) } else { 9 };
        let sh = if giant < 3 {
            match giant {
                0 => Shape { n: (250, 420), nb: (1, 3), dom: (1, 3), cost: 9, fan: false },
                1 => Shape { n: (250, 420), nb: (40, 60), dom: (3, 4), cost: 9, fan: false },
                _ => Shape { n: (1100, 1250), nb: (57, 62), dom: (3, 3), cost: 9, fan: false },
            }
        } else if huge {
            // many layers or many states: thousands of nodes, long frontiers
            match r.below(4) {
                0 => Shape { n: (12, 20), nb: (6, 16), dom: (2, 4), cost: 20, fan: r.chance(50) },
                1 => Shape { n: (30, 70), nb: (1, 3), dom: (1, 3), cost: 9, fan: false },
                2 => Shape { n: (5, 8), nb: (20, 50), dom: (3, 8), cost: 50, fan: true },
                _ => Shape { n: (9, 14), nb: (8, 24), dom: (2, 5), cost: 100, fan: true },
            }
        } else if p.big > 0 && r.chance(p.big) {
            // deeper and wider ones: more subproblems, incumbents found late, more contention
            match r.below(6) {
                0 => Shape { n: (4, 9), nb: (3, 9), dom: (2, 4), cost: *r.pick(&[3, 20]), fan: r.chance(30) },
                1 => Shape { n: (5, 8), nb: (2, 3), dom: (2, 3), cost: 6, fan: r.chance(30) },
                2 => Shape { n: (5, 8), nb: (4, 6), dom: (2, 3), cost: 6, fan: r.chance(30) },
                3 | 4 => Shape { n: (8, 10), nb: (3, 4), dom: (2, 3), cost: 10, fan: true },
                _ => Shape { n: (6, 8), nb: (5, 9), dom: (2, 4), cost: 30, fan: true },
            }
        } else {
            let fan = r.chance(50);
            match r.below(8) {
                0 => Shape { n: (0, 3), nb: (1, 3), dom: (1, 3), cost: 2, fan: false },
                1 => Shape { n: (2, 4), nb: (2, 4), dom: (2, 3), cost: 2, fan },
                2 => Shape { n: (3, 5), nb: (2, 5), dom: (2, 3), cost: 4, fan },
                3 => Shape { n: (4, 6), nb: (3, 5), dom: (2, 2), cost: 9, fan },
                4 => Shape { n: (4, 6), nb: (3, 5), dom: (1, 3), cost: 5, fan },
                5 => Shape { n: (3, 3), nb: (3, 5), dom: (1, 2), cost: 6, fan: true },
                6 => Shape { n: (3, 4), nb: (3, 5), dom: (1, 3), cost: 6, fan: true },
                _ => Shape { n: (3, 5), nb: (3, 6), dom: (2, 4), cost: 1, fan },
            }
        };
        let mut model = Model::generate(r, &sh);
        model.yields = r.chance(20);
        if huge { model.tighten(r); }
        let solver = match p.which { 0 => r.below(2), 1 => 2, _ => *r.pick(&[0, 1, 2, 2]) };
        let cutset = *r.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
        let w = if r.chance(3) { 1000 } else { *r.pick(&[1usize, 1, 2, 2, 3, 4]) };
        let varied = r.chance(30);
        let width: Vec<usize> = (0..=model.n).map(|_| if varied { r.range(1, 4) as usize } else { w }).collect();
        let width: Vec<usize> = if giant == 1 || giant == 2 { vec![1000; model.n + 1] } else if huge { let k = *r.pick(&[1usize, 2, 4, 8]); width.iter().map(|w| w * k).collect() } else { width };
        let threads = if huge && r.chance(5) { r.range(17, 48) as usize } else if huge && r.chance(30) { r.range(5, 16) as usize } else if r.chance(35) { 1 } else { r.range(2, p.threads_max as i64) as usize };
        let ctor = match r.below(12) { 0 => Some(r.range(1, 5) as usize), 1 => Some(0), _ => None };
        let stop = if p.interrupts {
            match r.below(10) {
                0 => Stop::Maximize,
                1 => Stop::Never,
                2..=4 => Stop::From(r.range(1, 12) as usize),
                5..=7 => Stop::Kth(r.range(1, 8) as usize),
                8 => Stop::Kth(r.range(1, 40) as usize),
                _ => Stop::From(r.range(1, 60) as usize),
            }
        } else if r.chance(50) { Stop::Maximize } else { Stop::Never };
        // some of these problems take forever: cut them off
        let stop = if giant == 0 { Stop::From(40) } else if huge { Stop::From(*r.pick(&[200usize, 600, 1500])) } else { stop };
        let policy = r.below(5) as u8;
        let sched = Sched {
            seed: r.next(), policy,
            param: r.range(1, 6) as u32,
            coarse: r.chance(50),
            script: vec![],
        };
        let again = if !huge && r.chance(20) {
            let k = *r.pick(&[1, 1, 2, 3]);
            (0..k).map(|_| match r.below(6) { 0 | 1 => Stop::Maximize, 2 | 3 => Stop::Never, 4 => Stop::Kth(r.range(1, 8) as usize), _ => Stop::From(r.range(1, 12) as usize) }).collect()
        } else { vec![] };
        let solver = if solver == 0 && !huge && r.chance(45) { 3 } else { solver };
        let junk = solver != 2 && r.chance(12);
        Case { model, solver, cutset, width, threads, ctor, stop, sched, huge, again, junk }
    }
    /// a small case for two threads, all of whose schedules with few preemptions are to be run
    pub fn tiny(r: &mut Rng) -> Case {
        let sh = match r.below(4) {
            0 => Shape { n: (2, 3), nb: (2, 3), dom: (2, 3), cost: 2, fan: false },
            1 => Shape { n: (3, 4), nb: (2, 3), dom: (2, 3), cost: 4, fan: false },
            2 => Shape { n: (3, 4), nb: (3, 4), dom: (2, 2), cost: 9, fan: true },
            _ => Shape { n: (3, 3), nb: (2, 4), dom: (2, 3), cost: 5, fan: true },
        };
        let mut model = Model::generate(r, &sh);
        model.yields = false;
        let solver = *r.pick(&[0, 1, 2, 2]);
        let cutset = *r.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
        let w = *r.pick(&[1usize, 1, 1, 2]);
        let width = vec![w; model.n + 1];
        let threads = if r.chance(15) { 3 } else { 2 };
        let stop = match r.below(6) { 0 | 1 => Stop::Maximize, 2 => Stop::From(r.range(1, 8) as usize), 3 => Stop::Kth(r.range(1, 8) as usize), 4 => Stop::Kth(r.range(1, 4) as usize), _ => Stop::Never };
        let sched = Sched { seed: 1, policy: 5, param: 0, coarse: true, script: vec![] };
        Case { model, solver, cutset, width, threads, ctor: None, stop, sched, huge: false, again: vec![], junk: false }
    }
    pub fn cfg_js(&self) -> String {
        Obj::new()
            .f("solver", SOLVERS[self.solver]).f("junk", &self.junk)
            .f("cutset", &self.cutset.to_string())
            .f("width", &self.width)
            .f("threads", &self.threads)
            .f("ctor", &self.ctor.map_or(-1, |x| x as i64))
            .f("stop", &self.stop.name())
            .f("again", &self.again.iter().map(|k| k.name()).collect::<Vec<_>>().join(" "))
            .f("off", &self.model.off.to_string()).f("scale", &self.model.scale.to_string()).f("stubborn", &self.model.stubborn)
            .done()
    }
    pub fn run(&self) -> Outcome {
        let m = &self.model;
        let rel = Rel(m);
        let rank = Rank(m);
        let width = Width::new(self.width.clone());
        m.dom_calls.store(0, SeqCst);
        let mut o = Outcome { status: "none".into(), lb: -INF, ub: INF, ..Default::default() };
        let stop = Arc::new(StopState { calls: AtomicUsize::new(0), fired: AtomicUsize::new(0), width: width.calls.clone(), at: AtomicUsize::new(0), kind: Mutex::new(self.stop.clone()), base: AtomicUsize::new(0) });
        begin(&self.sched, self.threads_at(0), if self.model.n > 5 { 4_000_000 } else { 1_000_000 });
        LAST_PANIC.lock().unwrap().clear();
        crate::trace::start(self.solver == 2, m);
        let res = catch_unwind(AssertUnwindSafe(|| match self.solver {
            0 => { let mut f = crate::trace::Spy(m, SimpleFrontier::new(&rank)); self.par(&rel, &rank, &width, &mut f, &stop) }
            1 => { let mut f = crate::trace::Spy(m, NoDupFrontier::new(&rank)); self.par(&rel, &rank, &width, &mut f, &stop) }
            3 => { let mut f = crate::trace::Spy(m, Lawful { nodes: vec![], r: Rng::new(&[self.sched.seed, 7]), unite: [0, 50, 100][self.sched.seed as usize % 3] }); self.par(&rel, &rank, &width, &mut f, &stop) }
            _ => {
                let s = match self.ctor {
                    Some(0) => BarrierParallelSolver::new(m, &rel, &rank, &width, self.cutset).with_nb_threads(self.threads_at(0)),
                    Some(k) => BarrierParallelSolver::custom(m, &rel, &rank, &width, self.cutset, k).with_nb_threads(self.threads_at(0)),
                    None => BarrierParallelSolver::custom(m, &rel, &rank, &width, self.cutset, self.threads_at(0)),
                };
                let mut s = s;
                self.drive(s, &stop, |s| (s.get_explored(), s.get_explored_dd()), |s, k| s.with_nb_threads(k))
            }
        }));
        let rep = end();
        crate::trace::stop();
        match res {
            Ok(x) => o = x,
            Err(_) => { o.fatal = "panic".into(); o.message = LAST_PANIC.lock().unwrap().clone(); }
        }
        o.sched = rep;
        self.counts(&mut o, &stop);
        o
    }
    fn counts(&self, o: &mut Outcome, stop: &StopState) {
        o.dom_calls = self.model.dom_calls.load(SeqCst);
        o.width_calls = stop.width.load(SeqCst);
        o.stop_calls = stop.calls.load(SeqCst);
        o.fired = stop.fired.load(SeqCst) > 0;
        o.after = if o.fired { o.width_calls - stop.at.load(SeqCst) } else { 0 };
    }
    /// the number of threads of the k-th run (the greatest of them is `threads`)
    pub fn threads_at(&self, k: usize) -> usize {
        if self.threads == 1 || self.again.is_empty() || k == self.again.len() || self.sched.seed % 3 > 0 { return self.threads; }
        1 + ((self.sched.seed >> 8) as usize + k * 7) % self.threads
    }
    fn drive<S: InterruptibleSolver>(&self, mut s: S, stop: &Arc<StopState>, explored: impl Fn(&S) -> (usize, usize), retune: impl Fn(S, usize) -> S) -> Outcome {
        // what a solver says before it ever ran is judged like a run interrupted at once
        let mut fresh = Outcome { status: "interrupted".into(), fired: true, ..Default::default() };
        (fresh.explored, fresh.explored_dd) = explored(&s);
        fresh.collect(&self.model, &s);
        let mut o = drive(&mut s, stop);
        (o.explored, o.explored_dd) = explored(&s);
        o.collect(&self.model, &s);
        if self.sched.seed % 4 == 1 { o.first = Some(Box::new(fresh)); }
        for (i, k) in self.again.iter().enumerate() {
            self.counts(&mut o, stop);
            if *stop.kind.lock().unwrap() == Stop::Maximize { stop.calls.store(o.explored, SeqCst); }
            stop.base.store(stop.calls.load(SeqCst), SeqCst);
            stop.fired.store(0, SeqCst);
            *stop.kind.lock().unwrap() = k.clone();
            let first = o;
            if self.threads_at(i + 1) != self.threads_at(i) { s = retune(s, self.threads_at(i + 1)); }
            o = drive(&mut s, stop);
            (o.explored, o.explored_dd) = explored(&s);
            o.collect(&self.model, &s);
            o.first = Some(Box::new(first));
        }
        o
    }
    fn par<F>(&self, rel: &Rel, rank: &Rank, width: &Width, f: &mut F, stop: &Arc<StopState>) -> Outcome
    where F: Frontier<State = St> + Send + Sync {
        let m = &self.model;
        let mut o;
        if self.junk {
            // a root of another life and an orphan
            f.push(SubProblem { state: std::sync::Arc::new(m.st(0, 1)), value: m.val_out(m.v0 + 1000), path: vec![], ub: isize::MAX });
            if m.n > 0 { f.push(SubProblem { state: std::sync::Arc::new(m.st(1, 1)), value: m.val_out(m.v0 + 500), path: vec![Decision { var: Variable(m.order[0]), value: m.dec_out(m.vals[0][0]) }], ub: isize::MAX }); }
        }
        {
            let s = match self.ctor {
                Some(0) => ParallelSolver::new(m, rel, rank, width, self.cutset, f).with_nb_threads(self.threads_at(0)),
                Some(k) => ParallelSolver::custom(m, rel, rank, width, self.cutset, f, k).with_nb_threads(self.threads_at(0)),
                None => ParallelSolver::custom(m, rel, rank, width, self.cutset, f, self.threads_at(0)),
            };
            o = self.drive(s, stop, |s| (s.get_explored(), s.get_explored_dd()), |s, k| s.with_nb_threads(k));
        }
        o.dropped = !f.is_empty();
        o
    }
}
struct StopState { calls: AtomicUsize, fired: AtomicUsize, width: Arc<AtomicUsize>, at: AtomicUsize, kind: Mutex<Stop>, base: AtomicUsize }
impl StopState {
    fn ask(&self) -> bool {
        let k = self.calls.fetch_add(1, SeqCst) + 1 - self.base.load(SeqCst);
        let r = match *self.kind.lock().unwrap() { Stop::Kth(x) => k == x, Stop::From(x) => k >= x, _ => false };
        if r && self.fired.fetch_add(1, SeqCst) == 0 { self.at.store(self.width.load(SeqCst), SeqCst); }
        crate::trace::asked(r);
        r
    }
}
fn drive<S: InterruptibleSolver>(s: &mut S, stop: &Arc<StopState>) -> Outcome {
    let mut o = Outcome { status: "none".into(), ..Default::default() };
    if *stop.kind.lock().unwrap() == Stop::Maximize { s.maximize(); }
    else {
        let st = stop.clone();
        o.status = match s.maximize_with_interrupt(move || st.ask()) {
            ResolutionStatus::Proved => "proved".into(),
            ResolutionStatus::Interrupted => "interrupted".into(),
        };
    }
    o
}
impl Outcome {
    fn collect<S: InterruptibleSolver>(&mut self, m: &Model, s: &S) {
        self.value = s.best_value().map(|v| m.norm(v));
        self.sol = s.best_solution().map(|p| m.path_js(&p));
        self.lb = m.norm(s.best_lower_bound());
        self.ub = m.norm(s.best_upper_bound());
        if s.best_value_so_far() != s.best_value() || s.best_solution_so_far().map(|p| m.path_js(&p)) != self.sol {
            self.message = "so_far accessors disagree".into();
        }
    }
    pub fn js(&self) -> String {
        let mut sol = String::new();
        match &self.sol { Some(p) => p.js(&mut sol), None => sol.push_str("[]") }
        Obj::new()
            .f("fatal", &self.fatal).f("message", &self.message).f("status", &self.status)
            .f("some", &self.value.is_some()).f("value", &self.value.unwrap_or(0))
            .f("hassol", &self.sol.is_some()).raw("sol", &sol)
            .f("lb", &self.lb).f("ub", &self.ub).f("fired", &self.fired)
            .f("explored", &self.explored).f("exploreddd", &self.explored_dd)
            .f("domcalls", &self.dom_calls).f("widthcalls", &self.width_calls).f("stopcalls", &self.stop_calls).f("after", &self.after).f("left", &(self.dropped && self.status != "interrupted"))
            .done()
    }
    /// The part that distinguishes outcomes for the judge.
    pub fn key(&self) -> String { self.js() }
    /// The harness's own opinion (used only to choose what to submit first); "" = fine.
    pub fn opinion(&self, c: &Case, opt: Option<i64>) -> &'static str {
        if !self.fatal.is_empty() { return "fatal"; }
        if !self.message.is_empty() { return "message"; }
        let m = &c.model;
        if let Some(v) = self.value {
            if self.lb != v { return "lb" }
            match &self.sol { None => return "nosol", Some(p) => if solution_value(m, p) != Some(v) { return "sol" } }
        } else if self.sol.is_some() { return "sol" } else if self.lb != -INF { return "lb" }
        if self.ub < self.lb { return "ub<lb" }
        if let Some(o) = opt { if self.ub < o { return "ub" } if self.lb > o { return "lb>opt" } }
        if self.status == "interrupted" { if !self.fired { return "status" } }
        else {
            if self.value != opt { return "opt" }
            if self.ub != self.lb { return "gap" }
        }
        if self.explored_dd != self.dom_calls { return "dd" }
        if self.explored < self.width_calls || (c.threads == 1 && self.explored != self.width_calls) { return "explored" }
        if self.status != "none" && self.stop_calls < self.explored { return "polls" }
        if self.after + 1 > c.threads { return "late" }
        if self.fired && self.status != "interrupted" { return "cut" }
        if self.dropped && self.status != "interrupted" { return "left" }
        ""
    }
}

pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

#[cfg(feature = "sched")]
pub fn begin(s: &Sched, threads: usize, max_steps: u64) {
    use parking_lot::sched::*;
    let policy = match s.policy {
        0 => Policy::Random { num: 1, den: 2 },
        1 => Policy::Random { num: 1, den: 8 },
        2 => Policy::RoundRobin,
        3 => Policy::Priority { changes: s.param, horizon: 40 },
        5 => Policy::Follow,
        _ => Policy::Priority { changes: s.param, horizon: 400 },
    };
    begin(Config { seed: s.seed, policy, script: s.script.clone(), expected: threads, max_steps, coarse: s.coarse }, crate::on_fatal);
}
#[cfg(feature = "sched")]
pub fn end() -> String {
    let r = parking_lot::sched::end();
    TRACE.lock().unwrap().clone_from(&r.trace);
    format!("threads={} decisions={} free={}", r.threads, r.decisions, r.freerun)
}
#[cfg(not(feature = "sched"))]
pub fn begin(_s: &Sched, _t: usize, _m: u64) {}
#[cfg(not(feature = "sched"))]
pub fn end() -> String { "unscheduled".into() }
pub static TRACE: Mutex<Vec<(u8, u8, u8)>> = Mutex::new(Vec::new());
