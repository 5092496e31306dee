//! The configuration asked for is the configuration which runs: names, command lines, the experiment
//! runner against the solvers called directly, numbers of threads.
use crate::model::*;
use crate::util::*;
use crate::{solve, Ctx};
use engineering::xputils::{solve_timeout, Args, SolverType};
use engineering::*;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Condvar, Mutex};
use std::thread::ThreadId;
use std::time::{Duration, Instant};
use structopt::StructOpt;

/// the subproblems a run is about, as the width heuristic sees them
struct Sees { by_depth: Vec<usize>, seen: Mutex<Vec<(i64, u64)>> }
impl WidthHeuristic<St> for Sees {
    fn max_width(&self, s: &St) -> usize {
        let x = (s.d as i64, s.set);
        let mut v = self.seen.lock().unwrap();
        if v.last() != Some(&x) { v.push(x) }
        self.by_depth[s.d as usize]
    }
}
/// no ties
struct Total<'a>(&'a Model);
impl StateRanking for Total<'_> {
    type State = St;
    fn compare(&self, a: &St, b: &St) -> std::cmp::Ordering {
        let m = self.0;
        let k = |s: &St| (m.rankset(s.d as usize, s.set), s.d as usize, s.set);
        k(a).cmp(&k(b))
    }
}
#[derive(Clone, PartialEq, Default)]
struct Ran { seen: Vec<(i64, u64)>, status: String, value: String, lb: i64, ub: i64, explored: i64, dd: i64 }
impl Ran {
    fn js(&self) -> Raw {
        let s: Vec<(i64, u64)> = self.seen.clone();
        Raw(Obj::new().f("seen", &s).f("status", &self.status).f("value", &self.value).f("lb", &self.lb).f("ub", &self.ub).f("explored", &self.explored).f("dd", &self.dd).done())
    }
}
fn direct(c: &solve::Case, barrier: bool, cutset: CutsetType) -> Ran {
    let m = &c.model;
    let (rel, rank, width) = (Rel(m), Total(m), Sees { by_depth: c.width.clone(), seen: Default::default() });
    let mut o = Ran::default();
    fn fill<S: InterruptibleSolver>(o: &mut Ran, m: &Model, s: &mut S) {
        o.status = s.maximize_with_interrupt(|| false).to_string();
        o.value = s.best_value().map_or("not found".into(), |x| x.to_string());
        o.lb = m.norm(s.best_lower_bound());
        o.ub = m.norm(s.best_upper_bound());
    }
    if barrier {
        let mut s = BarrierParallelSolver::custom(m, &rel, &rank, &width, cutset, 1);
        fill(&mut o, m, &mut s);
        (o.explored, o.dd) = (s.get_explored() as i64, s.get_explored_dd() as i64);
    } else {
        let mut f = NoDupFrontier::new(&rank);
        let mut s = ParallelSolver::custom(m, &rel, &rank, &width, cutset, &mut f, 1);
        fill(&mut o, m, &mut s);
        (o.explored, o.dd) = (s.get_explored() as i64, s.get_explored_dd() as i64);
    }
    o.seen = width.seen.into_inner().unwrap();
    o
}
fn ty(barrier: bool) -> SolverType { if barrier { SolverType::Barrier } else { SolverType::Parallel } }
fn runner(ctx: &Ctx, c: &solve::Case, barrier: bool, to: Duration) -> Ran {
    let m = &c.model;
    let (rel, rank, width) = (Rel(m), Total(m), Sees { by_depth: c.width.clone(), seen: Default::default() });
    let from = std::fs::metadata(&ctx.stdout).map(|x| x.len()).unwrap_or(0);
    solve_timeout("run", to, &width, m, &rel, &rank, Some(1), ty(barrier), c.cutset);
    let (ls, _) = crate::rep::lines(&ctx.stdout, from);
    let mut o = Ran { seen: width.seen.into_inner().unwrap(), ..Default::default() };
    let f: Vec<&str> = ls.last().map_or(vec![], |l| l.split(" | ").map(|x| x.trim()).collect());
    if f.len() == 11 {
        let int = |s: &str| s.parse::<isize>().map(|x| m.norm(x)).unwrap_or(WEIRD);
        o.status = f[2].into();
        o.value = f[5].into();
        (o.lb, o.ub) = (int(f[6]), int(f[7]));
        (o.explored, o.dd) = (f[9].parse().unwrap_or(-1), f[10].parse().unwrap_or(-1));
    }
    o
}

// -- numbers of threads ----------------------------------------------------------
/// many subproblems, none of which closes the gap
struct Many { k: isize, want: usize, extra: Duration, on: Mutex<(HashSet<ThreadId>, HashSet<ThreadId>, usize)>, cv: Condvar }
type MS = (usize, isize, bool);
impl Problem for Many {
    type State = MS;
    fn nb_variables(&self) -> usize { 3 }
    fn initial_state(&self) -> MS { (0, 0, false) }
    fn initial_value(&self) -> isize { 0 }
    fn next_variable(&self, l: &mut dyn Iterator<Item = &MS>) -> Option<Variable> { l.next().filter(|s| s.0 < 3).map(|s| Variable(s.0)) }
    fn for_each_in_domain<F>(&self, var: Variable, s: &MS, mut f: F) where F: FnMut(Decision) {
        self.meet();
        for value in 0..(if s.0 == 0 { self.k } else { 2 }) { f(Decision { var, value }) }
    }
    fn transition(&self, s: &MS, d: Decision) -> MS { (s.0 + 1, d.value + 10 * s.1, s.2) }
    fn transition_cost(&self, s: &MS, _: Decision) -> isize { if s.0 == 2 && !s.2 { -5 } else { 0 } }
    fn estimate(&self, _: &MS) -> isize { isize::MAX }
}
impl Many {
    /// the threads which are at work on different subproblems meet here
    fn meet(&self) {
        let me = std::thread::current().id();
        let mut g = self.on.lock().unwrap();
        if !g.0.contains(&me) || !g.1.insert(me) { return }
        g.2 = g.1.len();
        self.cv.notify_all();
        let t0 = Instant::now();
        while g.2 < self.want && t0.elapsed() < Duration::from_secs(20) { g = self.cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0; }
        // more than wanted?
        drop(g);
        std::thread::sleep(self.extra);
    }
}
struct MRel;
impl Relaxation for MRel {
    type State = MS;
    fn merge(&self, s: &mut dyn Iterator<Item = &MS>) -> MS { let x = s.next().unwrap(); (x.0, -1, true) }
    fn relax(&self, _: &MS, _: &MS, _: &MS, _: Decision, c: isize) -> isize { c }
}
struct MRank;
impl StateRanking for MRank { type State = MS; fn compare(&self, a: &MS, b: &MS) -> std::cmp::Ordering { a.cmp(b) } }
struct MWidth<'a>(&'a Many);
impl WidthHeuristic<MS> for MWidth<'_> {
    fn max_width(&self, s: &MS) -> usize { if s.0 > 0 { self.0.on.lock().unwrap().0.insert(std::thread::current().id()); } 1 }
}
fn threads(r: &mut Rng) -> (Obj, bool) {
    let cpus = num_cpus::get();
    let via = *r.pick(&["runner", "runner", "runner", "custom", "with", "new"]);
    let barrier = r.chance(50);
    let cutset = *r.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
    let asked = if via == "new" || via == "runner" && r.chance(20) { 0 } else if r.chance(15) { r.range(7, 24) as usize } else { r.range(1, 6) as usize };
    let most = if r.chance(15) { 24 } else { 6 };
    let was = r.range(1, most) as usize;
    let want = if asked == 0 { cpus } else { asked };
    let p = Many { k: (3 * want + 12) as isize, want, extra: Duration::from_millis(15), on: Default::default(), cv: Condvar::new() };
    let w = MWidth(&p);
    let mut f = NoDupFrontier::new(&MRank);
    let res = catch_unwind(AssertUnwindSafe(|| match (via, barrier) {
        ("runner", _) => { solve_timeout("threads", Duration::from_secs(600), &w, &p, &MRel, &MRank, if asked == 0 { None } else { Some(asked) }, ty(barrier), cutset); }
        ("custom", true) => { BarrierParallelSolver::custom(&p, &MRel, &MRank, &w, cutset, asked).maximize(); }
        ("custom", _) => { ParallelSolver::custom(&p, &MRel, &MRank, &w, cutset, &mut f, asked).maximize(); }
        ("with", true) => { BarrierParallelSolver::custom(&p, &MRel, &MRank, &w, cutset, was).with_nb_threads(asked).maximize(); }
        ("with", _) => { ParallelSolver::custom(&p, &MRel, &MRank, &w, cutset, &mut f, was).with_nb_threads(asked).maximize(); }
        (_, true) => { BarrierParallelSolver::new(&p, &MRel, &MRank, &w, cutset).maximize(); }
        (_, _) => { ParallelSolver::new(&p, &MRel, &MRank, &w, cutset, &mut f).maximize(); }
    }));
    let seen = p.on.lock().unwrap().2;
    let fine = res.is_ok() && if asked == 0 { seen == cpus } else { seen == asked };
    (Obj::new().f("kind", "threads").f("via", via).f("barrier", &barrier).f("cut", &cutset.to_string()).f("threads", &asked).f("was", &was)
        .f("cpus", &vec![cpus, std::thread::available_parallelism().map_or(cpus, |x| x.get())]).f("met", &seen).f("fatal", if res.is_err() { "panic" } else { "" }), fine)
}

// -- names and command lines -----------------------------------------------------
const GOOD: [&str; 4] = ["parallel", "barrier", "lel", "frontier"];
fn name(r: &mut Rng) -> String {
    let g = *r.pick(&GOOD);
    match r.below(9) {
        0..=3 => g.to_string(),
        4 => { let mut s = g.to_string(); let i = r.below(s.len()); s.remove(i); s }
        5 => { let mut s = g.to_string(); let i = r.below(s.len() + 1); s.insert(i, *r.pick(&['a', ' ', 'l', 'L', '-', '\t', 'é'])); s }
        6 => { let k = r.below(3); if k == 0 { g.to_uppercase() } else if k == 1 { g[..1].to_uppercase() + &g[1..] } else { g.chars().rev().collect() } }
        7 => r.pick(&["", " ", "fc", "f", "p", "b", "l", "par", "bar", "simple", "nodup", "all", "last-exact-layer", "lastexactlayer", "LastExactLayer", "none", "default", "0", "1", "sequential"]).to_string(),
        _ => (0..r.below(9)).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
    }
}
fn names(r: &mut Rng) -> (Obj, bool) {
    let s = name(r);
    let fine = s.parse::<SolverType>().is_ok() == (s == "parallel" || s == "barrier") && s.parse::<CutsetType>().is_ok() == (s == "lel" || s == "frontier");
    (Obj::new().f("kind", "name").f("s", &s)
        .f("solver", s.parse::<SolverType>().map_or("err", |x| match x { SolverType::Parallel => "parallel", SolverType::Barrier => "barrier" }))
        .f("cutset", s.parse::<CutsetType>().map_or("err", |x| match x { CutsetType::LastExactLayer => "lel", CutsetType::Frontier => "frontier" }))
        .f("back", &vec![SolverType::Parallel.to_string(), SolverType::Barrier.to_string(), CutsetType::LastExactLayer.to_string(), CutsetType::Frontier.to_string()])
        .f("fatal", ""), fine)
}
fn argv(r: &mut Rng) -> (Obj, bool) {
    let mut opts: Vec<(&str, &str, String, bool)> = vec![];
    let num = |r: &mut Rng| { if r.chance(90) { (match r.below(4) { 0 => r.below(10).to_string(), 1 => "0".into(), 2 => r.below(100_000).to_string(), _ => r.range(1, 64).to_string() }, true) } else { (r.pick(&["x", "1.5", "3s", "one", "1e3", "0x10", "99999999999999999999999"]).to_string(), false) } };
    if r.chance(92) { opts.push(("file", "f", r.pick(&["a.txt", "dir/b", "x y", "solve", "lel"]).to_string(), true)); }
    for (o, sh) in [("width", "w"), ("timeout", "t"), ("threads", "T")] { if r.chance(45) { let (v, ok) = num(r); opts.push((o, sh, v, ok)); } }
    for (o, sh, g) in [("solver", "s", ["parallel", "barrier"]), ("cutset", "c", ["lel", "frontier"])] {
        if r.chance(55) { let v = if r.chance(80) { r.pick(&g).to_string() } else { let x = name(r); if x.is_empty() || x.starts_with('-') || x.contains('\t') { "x".into() } else { x } }; opts.push((o, sh, v, true)); }
    }
    for i in (1..opts.len()).rev() { let j = r.below(i + 1); opts.swap(i, j); }
    let mut a = vec!["prog".to_string(), "solve".to_string()];
    for (o, sh, v, _) in opts.iter() {
        match r.below(4) { 0 => { a.push(format!("--{o}")); a.push(v.clone()) } 1 => a.push(format!("--{o}={v}")), 2 => { a.push(format!("-{sh}")); a.push(v.clone()) } _ => a.push(format!("-{sh}{v}")) }
    }
    let (mut err, mut got) = ("", vec![String::new(); 6]);
    match Args::from_iter_safe(a.iter()) {
        Ok(Args::Solve { file, width, timeout, threads, solver, cutset }) => {
            let o = |x: Option<usize>| x.map_or("-".to_string(), |x| x.to_string());
            got = vec![file, o(width), timeout.to_string(), o(threads),
                match solver { SolverType::Parallel => "parallel", SolverType::Barrier => "barrier" }.into(), match cutset { CutsetType::LastExactLayer => "lel", CutsetType::Frontier => "frontier" }.into()];
        }
        Ok(_) => err = "another command",
        Err(_) => err = "rejected",
    }
    let os: Vec<Raw> = opts.iter().map(|(o, _, v, ok)| Raw(Obj::new().f("o", *o).f("v", v).f("ok", ok).done())).collect();
    let has = |n: &str, d: &str| opts.iter().find(|x| x.0 == n).map_or(d.to_string(), |x| x.2.clone());
    let valid = opts.iter().any(|x| x.0 == "file") && opts.iter().all(|x| x.3) && ["parallel", "barrier"].contains(&has("solver", "parallel").as_str()) && ["lel", "frontier"].contains(&has("cutset", "lel").as_str());
    let fine = if valid { err.is_empty() && got == vec![has("file", ""), has("width", "-"), has("timeout", "60"), has("threads", "-"), has("solver", "parallel"), has("cutset", "lel")] } else { err == "rejected" };
    (Obj::new().f("kind", "argv").f("args", &a).f("opts", &os).f("err", err).f("got", &got).f("fatal", ""), fine)
}
fn run(ctx: &mut Ctx, r: &mut Rng) -> (Obj, bool) {
    let mut c = solve::Case::generate(r, &solve::Profile { which: 2, interrupts: false, threads_max: 2, big: 10, huge: 0 });
    let barrier = r.chance(50);
    c.model.yields = false;
    let zero = r.chance(15);
    let res = catch_unwind(AssertUnwindSafe(|| {
        let want = direct(&c, barrier, c.cutset);
        let same = (0..2).all(|_| direct(&c, barrier, c.cutset) == want);
        let got = runner(ctx, &c, barrier, Duration::from_secs(if zero { 0 } else { 6000 }));
        let other = direct(&c, !barrier, c.cutset);
        let cut = direct(&c, barrier, if c.cutset == CutsetType::Frontier { CutsetType::LastExactLayer } else { CutsetType::Frontier });
        (want, same, got, other, cut)
    }));
    let o = Obj::new().f("kind", "run").raw("cfg", &c.cfg_js()).f("barrier", &barrier).f("zero", &zero);
    match res {
        Ok((want, same, got, other, cut)) => {
            if other != want { ctx.count("told_by_solver", 1) }
            if cut != want { ctx.count("told_by_cutset", 1) }
            if !same { ctx.count("not_deterministic", 1) }
            let fine = if zero { got.status == "Timeout" } else { !same || got == want };
            (o.f("same", &same).f("want", &want.js()).f("got", &got.js()).f("fatal", ""), fine)
        }
        Err(_) => {
            let msg = { let mut l = solve::LAST_PANIC.lock().unwrap(); let x = l.clone(); l.clear(); x };
            let e = Ran::default();
            (o.f("same", &false).f("want", &e.js()).f("got", &e.js()).f("fatal", &format!("panic: {msg}")), false)
        }
    }
}
fn fixed(r: &mut Rng) -> (Obj, bool) {
    let w = r.range(0, 1 << 40) as usize;
    let g = WidthHeuristic::<u8>::max_width(&Fixed(w), &3);
    (Obj::new().f("kind", "fixed").f("w", &w.to_string()).f("got", &g.to_string()).f("fatal", ""), g == w)
}
pub fn run_case(ctx: &mut Ctx, idx: u64, r: &mut Rng) {
    let (kind, (o, fine)) = match r.below(40) {
        0..=1 => ("threads", threads(r)),
        2..=10 => ("names", names(r)),
        11..=22 => ("argv", argv(r)),
        23 => ("fixed", fixed(r)),
        _ => ("run", run(ctx, r)),
    };
    ctx.count("cases", 1);
    ctx.count(kind, 1);
    if ctx.wants(if fine { "" } else { kind }, idx) {
        let line = o.f("id", &format!("opt-{}-{}", ctx.shard, idx)).done();
        ctx.emit(&line);
    }
}
pub fn fatal_record(shard: u64, idx: u64, what: &str, msg: &str) -> String {
    Obj::new().f("id", &format!("opt-{shard}-{idx}")).f("kind", "run").f("fatal", &format!("{what}: {msg}")).done()
}
