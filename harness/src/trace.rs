//! Recording what a solver does, event by event: the operations on its frontier, the
//! subproblems it starts, the answers of the interrupt.
use crate::model::*;
use crate::util::*;
use crate::{solve, Ctx};
use engineering::*;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub enum E { Push, Pop, None, Clear, Start, Ask(bool) }
#[derive(Clone, Debug)]
pub struct TEv { pub e: E, pub t: usize, pub path: Vec<(i64, i64)>, pub value: isize, pub ub: isize }

pub static ON: AtomicBool = AtomicBool::new(false);
static HOOKED: AtomicBool = AtomicBool::new(false);
static EVS: Mutex<Vec<TEv>> = Mutex::new(Vec::new());

#[cfg(feature = "sched")]
fn me() -> usize { parking_lot::sched::thread_index().map_or(0, |x| x + 1) }
#[cfg(not(feature = "sched"))]
fn me() -> usize {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
    thread_local!(static ME: usize = N.fetch_add(1, SeqCst));
    ME.with(|x| *x)
}
fn put(e: E, path: &[Decision], value: isize, ub: isize) {
    if !ON.load(SeqCst) { return; }
    let t = me();
    EVS.lock().unwrap().push(TEv { e, t, path: path.iter().map(|d| (d.var.id() as i64, d.value as i64)).collect(), value, ub });
}
pub fn asked(r: bool) { put(E::Ask(r), &[], 0, 0) }

/// a frontier which reports what happens to it
pub struct Spy<'a, F>(pub &'a Model, pub F);
impl<F: Frontier<State = St>> Frontier for Spy<'_, F> {
    type State = St;
    fn push(&mut self, n: SubProblem<St>) { put(E::Push, &n.path, n.value, n.ub); self.1.push(n) }
    fn pop(&mut self) -> Option<SubProblem<St>> {
        let r = self.1.pop();
        match &r { Some(n) => put(E::Pop, &n.path, n.value, n.ub), None => put(E::None, &[], 0, 0) }
        r
    }
    fn clear(&mut self) { put(E::Clear, &[], 0, 0); self.1.clear() }
    fn len(&self) -> usize { self.1.len() }
}
#[cfg(feature = "hooks")]
fn observer(e: &engineering::hooks::Event) {
    use engineering::hooks::Event::*;
    match e {
        Start { path, value, ub } => put(E::Start, path, *value, *ub),
        _ if !HOOKED.load(SeqCst) => {}
        Push { path, value, ub } => put(E::Push, path, *value, *ub),
        Pop { path, value, ub } => put(E::Pop, path, *value, *ub),
        Clear => put(E::Clear, &[], 0, 0),
    }
}
pub fn start(barrier: bool, _m: &Model) {
    HOOKED.store(barrier, SeqCst);
    if ON.load(SeqCst) { EVS.lock().unwrap().clear(); }
}
pub fn stop() {}
fn install() {
    #[cfg(feature = "hooks")]
    { *engineering::hooks::OBSERVER.write().unwrap() = Some(observer); }
    ON.store(true, SeqCst);
}
fn event_js(m: &Model, e: &TEv) -> Raw {
    let (name, node, ans) = match &e.e { E::Push => ("push", true, false), E::Pop => ("pop", true, false), E::None => ("none", false, false), E::Clear => ("clear", false, false), E::Start => ("start", true, false), E::Ask(b) => ("ask", false, *b) };
    let mut o = Obj::new().f("e", name).f("t", &e.t);
    if node { o = o.f("path", &e.path).f("v", &m.norm(e.value)).f("u", &m.norm(e.ub)); }
    if name == "ask" { o = o.f("ans", &ans); }
    Raw(o.done())
}
pub const HOOKS: bool = cfg!(feature = "hooks");

/// exact state and value of a path (None: not a feasible partial assignment of the first variables)
fn locate(m: &Model, path: &[(i64, i64)]) -> Option<(usize, usize)> {
    let mut b = 0;
    for d in 0..path.len() {
        let var = *m.order.get(d)? as i64;
        let k = path.iter().find(|x| x.0 == var).and_then(|x| m.kindex(d, x.1 as isize))?;
        b = m.tr[d][b][k]?.0;
    }
    Some((path.len(), b))
}
/// the order of the starts is that in which the threads took their subproblems from the frontier
fn again(m: &Model, evs: &[TEv]) -> &'static str {
    let mut last = std::collections::HashMap::new();
    let mut all = vec![];
    for (i, e) in evs.iter().enumerate() {
        match e.e {
            E::Pop => { last.insert(e.t, i); }
            E::Start => {
                let Some(k) = locate(m, &e.path) else { return "path" };
                all.push((last.get(&e.t).copied().unwrap_or(i), k, e.value));
            }
            _ => {}
        }
    }
    all.sort();
    let mut seen = std::collections::HashMap::new();
    for (_, k, v) in all {
        if seen.get(&k).map_or(false, |x| *x >= v) { return "again"; }
        seen.insert(k, v);
    }
    ""
}
/// bounds which never increase, none below the optimum
fn ordered(m: &Model, evs: &[TEv]) -> &'static str {
    let opt = m.opt().unwrap_or(-INF);
    let mut last = INF;
    for e in evs {
        if let E::Start = e.e {
            let u = m.norm(e.ub);
            if u > last { return "increasing"; }
            if u < opt { return "useless"; }
            last = u;
        }
    }
    ""
}
/// feasible paths which lead to their values, each extending the path of an earlier one
fn genuine(m: &Model, evs: &[TEv]) -> &'static str {
    let mut seen: Vec<Vec<(i64, i64)>> = vec![];
    for e in evs {
        if let E::Start = e.e {
            let mut b = 0;
            let mut v = m.v0 + m.f(0, 1);
            for d in 0..e.path.len() {
                if d >= m.n { return "path"; }
                let hits: Vec<_> = e.path.iter().filter(|x| x.0 == m.order[d] as i64).collect();
                if hits.len() != 1 { return "path"; }
                let Some((x, c)) = m.kindex(d, hits[0].1 as isize).and_then(|k| m.tr[d][b][k]) else { return "path" };
                b = x;
                v += c;
            }
            if v - m.f(e.path.len(), 1 << b) != m.norm(e.value) { return "value"; }
            if e.path.is_empty() != seen.is_empty() { return "root"; }
            if !seen.is_empty() && !seen.iter().any(|p| p.len() < e.path.len() && p.iter().all(|x| e.path.contains(x))) { return "orphan"; }
            seen.push(e.path.clone());
        }
    }
    ""
}
/// what was pending, or still worked on, when the interrupt first asked to stop
fn tight(c: &solve::Case, o: &solve::Outcome, evs: &[TEv]) -> &'static str {
    let m = &c.model;
    if o.status != "interrupted" || c.solver == 2 && !HOOKS { return ""; }
    let Some(k) = evs.iter().position(|e| matches!(e.e, E::Ask(true))) else { return "" };
    let mut open: Vec<(&TEv, Option<(usize, usize)>)> = vec![];
    let mut work: std::collections::HashMap<usize, isize> = Default::default();
    for e in &evs[..k] {
        let same = |x: &(&TEv, Option<(usize, usize)>)| if c.solver == 0 { x.0.path == e.path && x.0.value == e.value && x.0.ub == e.ub } else { x.1 == locate(m, &e.path) };
        match e.e {
            E::Push => open.push((e, locate(m, &e.path))),
            E::Pop => {
                work.insert(e.t, m.norm(e.ub) as isize);
                if c.solver == 0 { if let Some(i) = open.iter().position(same) { open.remove(i); } } else { open.retain(|x| !same(x)); }
            }
            E::Clear => open.clear(),
            E::Ask(_) => { work.remove(&e.t); }
            _ => {}
        }
    }
    // what the thread which is told to stop has taken before it asked
    if evs[..k].iter().rev().find(|e| e.t == evs[k].t && matches!(e.e, E::Start | E::Pop)).map_or(true, |e| matches!(e.e, E::Start)) { work.remove(&evs[k].t); }
    let most = open.iter().map(|x| m.norm(x.0.ub) as i64).chain(work.values().map(|x| *x as i64)).max().unwrap_or(-INF as i64);
    if o.ub > o.lb.max(most) { "loose" } else { "" }
}
pub fn generate(exp: &str, r: &mut Rng) -> solve::Case {
    let mut c = match exp {
        "ord" => solve::Case::generate(r, &solve::Profile { which: 2, interrupts: r.clone().chance(30), threads_max: 2, big: 60, huge: 6 }),
        "gen" => solve::Case::generate(r, &solve::Profile { which: 2, interrupts: r.clone().chance(30), threads_max: 4, big: 40, huge: 6 }),
        "twi" => solve::Case::generate(r, &solve::Profile { which: 2, interrupts: r.clone().chance(30), threads_max: 2, big: 60, huge: 6 }),
        "tig" => {
            let mut c = solve::Case::generate(r, &solve::Profile { which: 2, interrupts: true, threads_max: 4, big: 85, huge: 4 });
            if c.solver == 3 { c.solver = 0; }
            // several threads and late interruptions: idle ones next to busy ones
            if c.threads == 1 && r.chance(85) { c.threads = r.range(2, 6) as usize; c.ctor = None; }
            if !c.huge && r.chance(60) { c.width.iter_mut().for_each(|w| *w = 1); c.stop = solve::Stop::From(r.range(2, 45) as usize); }
            c
        }
        "dom" => solve::Case::generate(r, &solve::Profile { which: 1, interrupts: false, threads_max: 4, big: 40, huge: 6 }),
        _ => solve::Case::generate(r, &solve::Profile { which: 2, interrupts: r.clone().chance(35), threads_max: 3, big: 0, huge: 0 }),
    };
    c.again.clear();
    c.junk = false;
    if exp == "twi" { c.ctor = None; }
    if exp == "ord" || exp == "twi" || exp == "dom" && r.chance(40) { c.threads = 1; }
    if exp == "dom" || exp == "ord" { c.ctor = None; c.width.iter_mut().for_each(|w| *w = (*w).min(3)); }
    c
}
fn record(id: &str, c: &solve::Case, o: &solve::Outcome, evs: &[TEv]) -> String {
    let v: Vec<Raw> = evs.iter().map(|e| event_js(&c.model, e)).collect();
    Obj::new().f("id", id).raw("m", &c.model.json()).raw("cfg", &c.cfg_js()).f("hooks", &HOOKS).raw("out", &o.js()).f("evs", &v).done()
}
pub fn fatal_record(exp: &str, seed: u64, shard: u64, idx: u64, what: &str, msg: &str) -> String {
    let mut r = crate::rng_for(exp, seed, shard, idx);
    let c = generate(exp, &mut r);
    let o = solve::Outcome { fatal: what.into(), message: msg.into(), status: "none".into(), lb: -INF, ub: INF, ..Default::default() };
    if exp == "twi" { return twin_record(&format!("{exp}-{shard}-{idx}"), &c, &o.js(), &o.js(), &vec![], &vec![]); }
    record(&format!("{exp}-{shard}-{idx}"), &c, &o, &[])
}
/// the same case twice, the memory being in another shape the second time
fn twins(ctx: &mut Ctx, idx: u64, r: &mut Rng) {
    let c = generate(&ctx.exp, r);
    let mut junk: Vec<Box<[u8]>> = vec![];
    let mut two = vec![];
    for _ in 0..2 {
        let o = c.run();
        let mut evs: Vec<TEv> = EVS.lock().unwrap().iter().filter(|e| matches!(e.e, E::Start)).cloned().collect();
        for e in evs.iter_mut() { for x in e.path.iter_mut() { x.1 = c.model.dec_in(x.1 as isize) } }
        let n = evs.len();
        let v: Vec<Raw> = evs.iter().map(|e| event_js(&c.model, e)).collect();
        two.push((n, o.js(), v, o.fatal.is_empty()));
        junk.extend((0..300).map(|_| vec![0u8; 8 << r.below(7)].into_boxed_slice()));
        let mut k = 0;
        junk.retain(|_| { k += 1; (k * 7) % 3 > 0 });
    }
    let text = |v: &[Raw]| v.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(",");
    let bad = if !two[0].3 { "fatal" } else if two[0].1 != two[1].1 { "other outcome" } else if text(&two[0].2) != text(&two[1].2) { "other starts" } else { "" };
    ctx.count("cases", 1);
    if two[0].0 > 1 { ctx.count("nontrivial", 1); }
    if two[0].0 > 20 { ctx.count("runs_over_20", 1); }
    if (two[0].0 > 120 || c.model.n > 100) && bad.is_empty() { return; }
    if !bad.is_empty() { ctx.count(&format!("bad_{bad}"), 1); }
    if (!bad.is_empty() || two[0].0 > 1 || idx % 8 == 0) && ctx.wants(bad, idx) {
        let line = twin_record(&format!("{}-{}-{}", ctx.exp, ctx.shard, idx), &c, &two[0].1, &two[1].1, &two[0].2, &two[1].2);
        ctx.emit(&line);
    }
}
fn twin_record(id: &str, c: &solve::Case, a: &str, b: &str, sa: &Vec<Raw>, sb: &Vec<Raw>) -> String {
    Obj::new().f("id", id).raw("m", &c.model.json()).raw("cfg", &c.cfg_js()).f("hooks", &HOOKS).raw("a", a).raw("b", b).f("sa", sa).f("sb", sb).done()
}
pub fn run_case(ctx: &mut Ctx, idx: u64, r: &mut Rng) {
    install();
    if ctx.exp == "twi" { return twins(ctx, idx, r); }
    let c = generate(&ctx.exp, r);
    let o = c.run();
    let mut evs = EVS.lock().unwrap().clone();
    for e in evs.iter_mut() { for x in e.path.iter_mut() { x.1 = c.model.dec_in(x.1 as isize) } }
    let mut bad = o.opinion(&c, c.model.opt());
    if bad.is_empty() {
        bad = match ctx.exp.as_str() { "dom" => again(&c.model, &evs), "ord" => ordered(&c.model, &evs), "gen" => genuine(&c.model, &evs), "tig" => tight(&c, &o, &evs), _ => "" };
    }
    ctx.count("cases", 1);
    ctx.count("events", evs.len() as u64);
    let starts = evs.iter().filter(|e| matches!(e.e, E::Start)).count();
    if starts > 1 { ctx.count("nontrivial", 1); }
    if starts > 20 { ctx.count("runs_over_20", 1); }
    if ctx.exp == "tig" && o.status == "interrupted" && starts > 0 { ctx.count("interrupted", 1); }
    if (starts > 120 || c.model.n > 100) && bad.is_empty() { return; }
    if !bad.is_empty() { ctx.count(&format!("bad_{bad}"), 1); }
    if !bad.is_empty() || starts > 1 || idx % 8 == 0 {
        if ctx.wants(bad, idx) {
            let line = record(&format!("{}-{}-{}", ctx.exp, ctx.shard, idx), &c, &o, &evs);
            ctx.emit(&line);
        }
    }
}
