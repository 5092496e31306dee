//! Compilations of decision diagrams, alone and in sequences on one object.
use crate::model::*;
use crate::util::*;
use crate::Ctx;
use engineering::*;
use parking_lot::RwLock;
use rustc_hash::FxHashMap;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

type Barriers = Arc<Vec<RwLock<FxHashMap<Arc<St>, BarrierInfo>>>>;
enum Dd { A(All<St>), B(Barrier<St>) }

#[derive(Clone, Debug)]
pub struct Node { pub d: usize, pub set: u64, pub value: i64, pub path: Vec<(i64, i64)>, pub ub: i64 }
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Th { pub d: usize, pub set: u64, pub theta: i64, pub explored: bool }

pub struct Comp {
    pub ty: CompilationType,
    pub width: usize,
    pub root: Node,
    pub lb: i64,
    pub t0: Vec<Th>,
    pub t1: Vec<Th>,
    pub fatal: String,
    pub exact: bool,
    pub value: Option<i64>,
    pub sol: Option<Vec<(i64, i64)>>,
    pub cut: Vec<Node>,
    pub drained: bool,
    pub explored: usize,
    pub dom_calls: usize,
    pub evs: Vec<Ev>,
}

fn snapshot(m: &Model, b: &Barriers) -> Vec<Th> {
    let mut v: Vec<Th> = b.iter().enumerate().flat_map(|(d, l)| {
        l.read().iter().map(|(s, i)| Th { d, set: s.set, theta: m.norm(i.theta), explored: i.explored }).collect::<Vec<_>>()
    }).collect();
    v.sort_by_key(|t| (t.d, t.set));
    v
}
/// a random subproblem: an exact node reached by a random walk
fn subproblem(r: &mut Rng, m: &Model, depth: usize) -> Node {
    let (mut b, mut v, mut path) = (0usize, m.v0 + m.f(0, 1), vec![]);
    let mut d = 0;
    while d < depth {
        let ks: Vec<usize> = (0..m.vals[d].len()).filter(|k| m.tr[d][b][*k].is_some()).collect();
        if ks.is_empty() { break; }
        let k = *r.pick(&ks);
        let (x, c) = m.tr[d][b][k].unwrap();
        path.push((m.order[d] as i64, m.vals[d][k]));
        b = x;
        v += c;
        d += 1;
    }
    if r.chance(50) { path.reverse(); }
    Node { d, set: 1 << b, value: v - m.f(d, 1 << b), path, ub: INF }
}

pub struct Flavor { pub prefill: bool, pub log: bool, pub seqs: bool, pub only: Option<CompilationType> }
fn flavor(exp: &str) -> Flavor {
    match exp {
        "ddr" => Flavor { prefill: false, log: false, seqs: false, only: Some(CompilationType::Restricted) },
        "ddx" => Flavor { prefill: false, log: false, seqs: false, only: Some(CompilationType::Relaxed) },
        "dde" => Flavor { prefill: false, log: false, seqs: false, only: Some(CompilationType::Exact) },
        "ddt" => Flavor { prefill: true, log: false, seqs: true, only: None },
        "ddl" => Flavor { prefill: false, log: true, seqs: false, only: None },
        "ddh" => Flavor { prefill: false, log: false, seqs: true, only: None },
        _ => panic!("unknown experiment {exp}"),
    }
}
pub struct Seq { pub model: Model, pub barrier: bool, pub cutset: CutsetType, pub comps: Vec<Comp> }

fn generate(exp: &str, r: &mut Rng) -> (Seq, Barriers) {
    let fl = flavor(exp);
    let fan = r.chance(40);
    let big = r.chance(6);
    let sh = match if big { r.range(6, 8) } else { r.range(0, 5) } {
        6 => Shape { n: (3, 5), nb: (8, 20), dom: (3, 5), cost: 12, fan },
        7 => Shape { n: (7, 10), nb: (2, 5), dom: (1, 2), cost: 5, fan: false },
        8 => Shape { n: (2, 3), nb: (20, 60), dom: (6, 12), cost: 40, fan },
        0 => Shape { n: (0, 3), nb: (1, 3), dom: (1, 3), cost: 2, fan: false },
        1 => Shape { n: (3, 4), nb: (2, 4), dom: (2, 3), cost: 3, fan },
        2 => Shape { n: (3, 5), nb: (2, 5), dom: (2, 3), cost: 5, fan },
        3 => Shape { n: (4, 6), nb: (2, 4), dom: (1, 2), cost: 3, fan },
        4 => Shape { n: (3, 4), nb: (4, 6), dom: (2, 4), cost: 9, fan },
        _ => Shape { n: (4, 5), nb: (3, 5), dom: (2, 3), cost: 1, fan },
    };
    let mut m = Model::generate(r, &sh);
    if fl.log { m.log = Some(Mutex::new(vec![])); }
    let barrier = if exp == "ddt" { true } else { r.chance(50) };
    let cutset = *r.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
    let bar: Barriers = Arc::new((0..=m.n).map(|_| RwLock::new(FxHashMap::default())).collect());
    let w = m.best_completion();
    let count = if fl.seqs { r.range(2, 5) as usize } else { 1 };
    let ty0 = *r.pick(&[CompilationType::Relaxed, CompilationType::Relaxed, CompilationType::Restricted, CompilationType::Exact]);
    let mut comps = vec![];
    for _ in 0..count {
        let ty = fl.only.unwrap_or(if fl.seqs { *r.pick(&[CompilationType::Relaxed, CompilationType::Relaxed, CompilationType::Restricted, CompilationType::Exact]) } else { ty0 });
        let depth = match r.below(8) { 0..=3 => 0, 4..=5 => r.below(2), 6 => r.below(m.n + 1), _ => r.below(3) }.min(m.n);
        let mut root = subproblem(r, &m, depth);
        let best = m.wset(&w, root.d, root.set).map(|x| x + root.value);
        let lb = match (r.below(6), best) {
            (0..=1, _) => -INF,
            (_, None) => root.value + r.range(-5, 5),
            (2..=3, Some(x)) => x - r.range(1, 6),
            (4, Some(x)) => x - r.range(1, 2),
            (_, Some(x)) => x + r.range(0, 3),
        };
        if r.chance(40) { if let Some(x) = best { root.ub = x + r.range(0, 4); } }
        let width = if big { *r.pick(&[1usize, 2, 3, 4, 5, 6, 8, 10, 15, 30, 60]) } else { *r.pick(&[1usize, 1, 2, 2, 2, 3, 3, 4, 5, 100]) };
        let drained = ty == CompilationType::Relaxed && (!fl.seqs || r.chance(70));
        comps.push(Comp { ty, width, root, lb, t0: vec![], t1: vec![], fatal: String::new(), exact: false, value: None, sol: None, cut: vec![], drained, explored: 0, dom_calls: 0, evs: vec![] });
    }
    if fl.prefill && m.n > 0 {
        for _ in 0..r.below(5) {
            let depth = r.range(1, m.n as i64) as usize;
            let q = subproblem(r, &m, depth);
            let theta = match r.below(8) { 0 => isize::MAX, 1 => isize::MIN + 5, _ => m.val_out(q.value + r.range(-3, 3)) };
            bar[q.d].write().insert(Arc::new(m.st(q.d, q.set)), BarrierInfo { theta, explored: r.chance(50) });
        }
    }
    (Seq { model: m, barrier, cutset, comps }, bar)
}

fn run_seq(q: &mut Seq, bar: &Barriers) {
    let m = &q.model;
    let rel = Rel(m);
    let rank = Rank(m);
    let mut dd = if q.barrier { Dd::B(Barrier::new(bar.clone(), q.cutset)) } else { Dd::A(All::new(q.cutset)) };
    for c in q.comps.iter_mut() {
        if q.barrier { c.t0 = snapshot(m, bar); }
        if let Some(l) = &m.log { l.lock().unwrap().clear(); }
        m.dom_calls.store(0, SeqCst);
        let input = CompilationInput {
            comp_type: c.ty, max_width: c.width, problem: m, relaxation: &rel, ranking: &rank,
            residual: SubProblem {
                state: Arc::new(m.st(c.root.d, c.root.set)), value: m.val_out(c.root.value),
                path: c.root.path.iter().map(|(v, x)| Decision { var: Variable(*v as usize), value: m.dec_out(*x) }).collect(),
                ub: m.val_out(c.root.ub),
            },
            best_lb: m.val_out(c.lb),
        };
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match &mut dd {
            Dd::A(d) => { observe(m, d, &input, c.drained); let e = d.get_explored(); (observe2(m, d, c.drained), e) }
            Dd::B(d) => { observe(m, d, &input, c.drained); let e = d.get_explored(); (observe2(m, d, c.drained), e) }
        }));
        c.dom_calls = m.dom_calls.load(SeqCst);
        if let Some(l) = &m.log { c.evs = l.lock().unwrap().clone(); }
        match res {
            Ok(((exact, value, sol, cut), e)) => { c.exact = exact; c.value = value; c.sol = sol; c.cut = cut; c.explored = e; }
            Err(_) => {
                c.fatal = "panic: ".to_string() + &crate::solve::LAST_PANIC.lock().unwrap();
                crate::solve::LAST_PANIC.lock().unwrap().clear();
                return;
            }
        }
        if q.barrier { c.t1 = snapshot(m, bar); }
    }
}
fn observe<D: DecisionDiagram<State = St>>(_m: &Model, d: &mut D, input: &CompilationInput<Model, Rel, Rank>, _dr: bool) {
    d.compile(input);
}
type Obs = (bool, Option<i64>, Option<Vec<(i64, i64)>>, Vec<Node>);
fn observe2<D: DecisionDiagram<State = St>>(m: &Model, d: &mut D, drain: bool) -> Obs {
    let exact = d.is_exact();
    let value = d.best_value().map(|v| m.norm(v));
    let sol = d.best_solution().map(|p| m.path_js(&p));
    let mut cut = vec![];
    if drain {
        d.drain_cutset(|s| cut.push(Node {
            d: s.state.d as usize, set: s.state.set, value: m.norm(s.value), path: m.path_js(&s.path), ub: m.norm(s.ub),
        }));
    }
    (exact, value, sol, cut)
}

/* ------------------------- the harness's own opinion ------------------------ */
fn lookup(t: &[Th], d: usize, set: u64) -> Option<Th> { t.iter().find(|x| x.d == d && x.set == set).copied() }
fn plus(a: i64, c: i64) -> i64 { if a.abs() >= 100_000_000 { a } else { a + c } }
/// the best completion of (d, b, a) which avoids the covered states (the start itself is only tested when asked)
fn uncovered(m: &Model, d: usize, b: usize, a: i64, test: bool, cov: &dyn Fn(usize, u64, i64) -> bool) -> Option<i64> {
    if test && cov(d, 1 << b, a) { return None; }
    if d == m.n { return Some(a); }
    m.tr[d][b].iter().filter_map(|t| *t).filter_map(|(x, c)| {
        uncovered(m, d + 1, x, plus(a, c + m.f(d, 1 << b) - m.f(d + 1, 1 << x)), true, cov)
    }).max()
}
pub fn check_node(m: &Model, n: &Node, root: &Node) -> bool {
    if n.set.count_ones() != 1 || n.d <= root.d || n.path.len() != n.d { return false; }
    if root.path.iter().any(|p| !n.path.contains(p)) { return false; }
    let (mut b, mut v) = (0usize, m.v0 + m.f(0, 1));
    for d in 0..n.d {
        let hits: Vec<_> = n.path.iter().filter(|x| x.0 == m.order[d] as i64).collect();
        if hits.len() != 1 { return false; }
        let Some(k) = m.kindex(d, hits[0].1 as isize) else { return false };
        let Some((x, c)) = m.tr[d][b][k] else { return false };
        b = x; v += c;
        if d + 1 == root.d && 1u64 << b != root.set { return false; }
    }
    n.set == 1 << b && v - m.f(n.d, 1 << b) == n.value
}
fn opinion(q: &Seq, c: &Comp) -> &'static str {
    let m = &q.model;
    if !c.fatal.is_empty() { return "fatal"; }
    let rb = c.root.set.trailing_zeros() as usize;
    // a threshold covers its state, and (models with a domination order) the states it dominates
    let t0cov = |d: usize, s: u64, a: i64| c.t0.iter().any(|t| t.d == d && (
        (t.set == s && t.theta >= a)
        || (m.kind.ordered() && t.set > s && (t.theta >= INF || plus(t.theta, m.f(d, t.set)) >= plus(a, m.f(d, s))))));
    let unc = uncovered(m, c.root.d, rb, c.root.value, false, &t0cov);
    let real = uncovered(m, c.root.d, rb, c.root.value, false, &|_, _, _| false);
    let genuine = || match (&c.sol, c.value) {
        (Some(p), Some(v)) => solution_value(m, p) == Some(v) && c.root.path.iter().all(|x| p.contains(x)),
        (None, None) => true,
        _ => false,
    };
    if c.value.is_some() != c.sol.is_some() { return "nosol"; }
    if c.explored != c.dom_calls { return "count"; }
    match c.ty {
        CompilationType::Exact => {
            if !c.exact { return "exact-flag"; }
            if !genuine() { return "genuine"; }
            if let Some(u) = unc { if u > c.lb && c.value.map_or(true, |v| v < u) { return "exact-miss"; } }
        }
        CompilationType::Restricted => {
            if !genuine() { return "genuine"; }
            if c.exact { if let Some(u) = unc { if u > c.lb && c.value.map_or(true, |v| v < u) { return "restr-exact"; } } }
            if !c.exact && c.width >= 100 { return "restr-flag"; }
        }
        CompilationType::Relaxed => {
            if let Some(u) = unc { if u > c.lb && c.value.map_or(true, |v| v < u) { return "relax-under"; } }
            if c.exact && !genuine() { return "genuine"; }
            if c.exact { if let Some(v) = c.value { if real.map_or(true, |x| x < v) { return "relax-exact"; } } }
            if !c.drained && !q.barrier { return ""; }
            let blocked = |n: &Node| lookup(&c.t1, n.d, n.set).map_or(false, |t| t.theta > n.value || (t.theta == n.value && t.explored));
            let cov = |d: usize, s: u64, a: i64| t0cov(d, s, a)
                || (!c.exact && c.cut.iter().any(|n| n.d == d && n.set == s && n.value >= a && !blocked(n)));
            for n in c.cut.iter() {
                if !check_node(m, n, &c.root) { return "cut-node"; }
                if c.value.map_or(true, |v| n.ub > v) { return "cut-ub-high"; }
                let rub = m.rubset(n.d, n.set);
                if rub < INF && n.ub > if rub <= -INF { -INF } else { rub + n.value } { return "cut-ub-rub"; }
                let u = uncovered(m, n.d, n.set.trailing_zeros() as usize, n.value, false, &t0cov);
                if let Some(u) = u { if u > c.lb && n.ub < u { return "cut-ub-low"; } }
            }
            if c.drained {
                let bound = if c.exact { c.lb.max(c.value.unwrap_or(-INF)) } else { c.lb };
                if uncovered(m, c.root.d, rb, c.root.value, false, &cov).map_or(false, |u| u > bound) { return "cover"; }
                for t in c.t1.iter() {
                    let old = lookup(&c.t0, t.d, t.set);
                    let changed = old.map_or(true, |o| t.theta > o.theta || (t.theta == o.theta && t.explored && !o.explored));
                    if !changed || t.theta <= -100_000_000 { continue; }
                    if t.set.count_ones() != 1 { return "theta-relaxed"; }
                    let b = t.set.trailing_zeros() as usize;
                    if !t.explored && !c.exact && c.cut.iter().any(|n| n.d == t.d && n.set == t.set && n.value >= t.theta && !blocked(n)) { continue; }
                    if uncovered(m, t.d, b, t.theta, false, &cov).map_or(false, |u| u > bound) { return "theta"; }
                }
            }
        }
    }
    ""
}

fn node_js(n: &Node) -> Raw {
    Raw(Obj::new().f("d", &n.d).f("set", &Model::set_js(n.set)).f("v", &n.value).f("path", &n.path).f("ub", &n.ub).done())
}
fn th_js(t: &[Th]) -> Vec<Raw> {
    t.iter().map(|t| Raw(Obj::new().f("d", &t.d).f("set", &Model::set_js(t.set)).f("th", &t.theta).f("ex", &t.explored).done())).collect()
}
fn comp_js(c: &Comp) -> Raw {
    let mut ev: Vec<Raw> = vec![];
    let mut dom: Vec<Raw> = vec![];
    let mut vars: Vec<Raw> = vec![];
    let mut merges: Vec<(usize, Vec<u64>, u64)> = vec![];
    let mut relax: Vec<Raw> = vec![];
    let mut pend: Vec<u64> = vec![];
    let mut layer = 0usize;
    for e in c.evs.iter() {
        match e {
            Ev::Var(all) => vars.push(Raw(format!("[{}]", all.iter().map(|(d, s)| format!("{{\"d\":{},\"s\":{}}}", d, arr(*s))).collect::<Vec<_>>().join(",")))),
            Ev::Dom(d, s, v) => dom.push(Raw(format!("{{\"d\":{},\"s\":{},\"var\":{}}}", d, arr(*s), v))),
            Ev::Tr(d, s, val, t, cost) => ev.push(Raw(format!("{{\"d\":{},\"s\":{},\"val\":{},\"t\":{},\"c\":{}}}", d, arr(*s), val, arr(*t), cost))),
            Ev::MergeIn(d, s) => { layer = *d as usize; pend.push(*s) }
            Ev::MergeOut(_, s) => { merges.push((layer, std::mem::take(&mut pend), *s)); }
            Ev::Relax(s, d, n, val, cost, ret) => {
                let l = merges.last().map_or(0, |m| m.0);
                relax.push(Raw(format!("{{\"d\":{},\"s\":{},\"t\":{},\"new\":{},\"val\":{},\"c\":{},\"r\":{}}}", l, arr(*s), arr(*d), arr(*n), val, cost, ret)))
            }
        }
    }
    let mg: Vec<Raw> = merges.iter().map(|(d, i, o)| Raw(Obj::new().f("d", d).f("ins", &i.iter().map(|s| Model::set_js(*s)).collect::<Vec<_>>()).f("out", &Model::set_js(*o)).done())).collect();
    let mut o = Obj::new()
        .f("type", &c.ty.to_string()).f("w", &c.width).raw("root", &node_js(&c.root).0).f("lb", &c.lb)
        .f("t0", &th_js(&c.t0)).f("t1", &th_js(&c.t1)).f("fatal", &c.fatal).f("exact", &c.exact)
        .f("some", &c.value.is_some()).f("value", &c.value.unwrap_or(0)).f("hassol", &c.sol.is_some())
        .f("sol", &c.sol.clone().unwrap_or_default()).f("drained", &c.drained)
        .f("cut", &c.cut.iter().map(node_js).collect::<Vec<_>>()).f("explored", &c.explored).f("domcalls", &c.dom_calls);
    o = o.f("tr", &ev).f("dom", &dom).f("merges", &mg).f("relax", &relax).f("vars", &vars);
    Raw(o.done())
}
fn arr(s: u64) -> String { let mut o = String::new(); Model::set_js(s).js(&mut o); o }
fn record(id: &str, q: &Seq) -> String {
    let cs: Vec<Raw> = q.comps.iter().map(comp_js).collect();
    Obj::new().f("id", id).raw("m", &q.model.json()).f("dd", if q.barrier { "barrier" } else { "all" })
        .f("cutset", &q.cutset.to_string()).f("stubborn", &q.model.stubborn)
        .f("off", &q.model.off.to_string()).f("sgn", &(q.model.off.signum() as i64)).f("scale", &q.model.scale.to_string()).f("comps", &cs).done()
}
pub fn fatal_record(exp: &str, seed: u64, shard: u64, idx: u64, _sub: &str, what: &str, msg: &str) -> String {
    let mut r = crate::rng_for(exp, seed, shard, idx);
    let (mut q, _b) = generate(exp, &mut r);
    q.comps.truncate(1);
    q.comps[0].fatal = format!("{what}: {msg}");
    record(&format!("{exp}-{shard}-{idx}"), &q)
}
pub fn run_case(ctx: &mut Ctx, idx: u64, r: &mut Rng) {
    let (mut q, bar) = generate(&ctx.exp, r);
    run_seq(&mut q, &bar);
    let mut bad = "";
    let done = q.comps.iter().position(|c| !c.fatal.is_empty()).map_or(q.comps.len(), |p| p + 1);
    q.comps.truncate(done);
    for c in q.comps.iter() {
        let o = opinion(&q, c);
        if !o.is_empty() && bad.is_empty() { bad = o; }
        ctx.count("compilations", 1);
        ctx.count(if c.exact { "exact" } else { "inexact" }, 1);
        if !c.cut.is_empty() { ctx.count("cutsets", 1); }
        if !c.t1.is_empty() { ctx.count("thresholds", c.t1.len() as u64); }
    }
    ctx.count("cases", 1);
    if !bad.is_empty() { ctx.count(&format!("bad_{bad}_{}_{}", if q.barrier { "barrier" } else { "all" }, q.cutset), 1); }
    // trivial compilations are of little interest to the judge
    let dull = q.comps.iter().all(|c| c.explored < 3);
    if !bad.is_empty() || !dull || idx % 16 == 0 {
        if ctx.wants(bad, idx) {
            let line = record(&format!("{}-{}-{}", ctx.exp, ctx.shard, idx), &q);
            ctx.emit(&line);
        }
    }
}
