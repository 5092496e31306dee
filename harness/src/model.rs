//! Table models: arbitrary layered decision problems, their relaxations and rankings.
use crate::util::*;
use engineering::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::thread::ThreadId;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct St { pub d: u16, pub set: u64, pub salt: u64 }
/// every eighth problem has states whose hashes collide
impl Hash for St {
    fn hash<H: Hasher>(&self, h: &mut H) {
        if self.salt % 8 == 3 { (self.set.count_ones() + self.set.trailing_zeros() % 2).hash(h); }
        else { self.d.hash(h); self.set.hash(h); self.salt.hash(h); }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind { Union, Top, Dom, Peak }
impl Kind {
    /// greater base states dominate smaller ones
    pub fn ordered(self) -> bool { matches!(self, Kind::Dom | Kind::Peak) }
}

#[derive(Debug, Clone)]
pub enum Ev {
    /// the states offered to the choice of the next variable, depth and set of each
    Var(Vec<(u16, u64)>),
    Dom(u16, u64, usize),
    Tr(u16, u64, isize, u64, i64),
    MergeIn(u16, u64),
    MergeOut(u16, u64),
    Relax(u64, u64, u64, isize, i64, i64),
}

pub struct Model {
    pub n: usize,
    pub order: Vec<usize>,
    pub nb: Vec<usize>,
    pub vals: Vec<Vec<i64>>,
    pub tr: Vec<Vec<Vec<Option<(usize, i64)>>>>,
    pub v0: i64,
    pub kind: Kind,
    pub slack: Vec<i64>,
    pub phi: Vec<Vec<i64>>,
    pub psi: Vec<i64>,
    pub rub: Vec<Vec<i64>>,
    pub rank: Vec<Vec<i64>>,
    pub salt: u64,
    pub off: i64,
    pub scale: i64,
    /// what the problem calls value v is voff + v * vmul
    pub voff: i64,
    pub vmul: i64,
    /// next_variable names some variable even when the layer is empty
    pub stubborn: bool,
    // observation
    pub dom_calls: AtomicUsize,
    pub log: Option<Mutex<Vec<Ev>>>,
    pub yields: bool,
}

#[derive(Clone, Debug)]
pub struct Shape {
    pub n: (i64, i64),
    pub nb: (i64, i64),
    pub dom: (i64, i64),
    pub cost: i64,
    /// the root has many children
    pub fan: bool,
}

impl Model {
    pub fn generate(r: &mut Rng, sh: &Shape) -> Model {
        let n = r.range(sh.n.0, sh.n.1) as usize;
        let kind = *r.pick(&[Kind::Union, Kind::Union, Kind::Top, Kind::Dom, Kind::Peak]);
        let mut order: Vec<usize> = (0..n).collect();
        if r.chance(60) { for i in (1..n).rev() { order.swap(i, r.below(i + 1)) } }
        let mut nb = vec![1];
        for d in 1..=n { nb.push(if d == n && r.chance(40) { 1 } else if d == 1 && sh.fan { r.range(3, 6) as usize } else { r.range(sh.nb.0, sh.nb.1) as usize }); }
        let mut vals = vec![];
        let infeasible = *r.pick(&[0usize, 0, 10, 25, 45]);
        let costs = *r.pick(&[(-sh.cost, sh.cost), (0, 1), (0, sh.cost), (-sh.cost, 0), (-1, 1), (0, 0)]);
        let mut tr = vec![];
        for d in 0..n {
            let k = if d == 0 && sh.fan { r.range(3, 6) as usize } else { r.range(sh.dom.0, sh.dom.1) as usize };
            let base = *r.pick(&[0i64, 0, 1, -3, 100]);
            let step = *r.pick(&[1i64, 1, 2, -1]);
            vals.push((0..k).map(|i| base + step * i as i64).collect::<Vec<_>>());
            let mut layer = vec![vec![None; k]; nb[d]];
            for j in 0..k {
                if kind.ordered() {
                    let mut nx: Vec<usize> = (0..nb[d]).map(|_| r.below(nb[d + 1])).collect();
                    let mut cs: Vec<i64> = (0..nb[d]).map(|_| r.range(costs.0, costs.1)).collect();
                    nx.sort(); cs.sort();
                    let first = if r.chance(infeasible) { r.below(nb[d] + 1) } else { 0 };
                    for b in first..nb[d] { layer[b][j] = Some((nx[b], cs[b])); }
                } else {
                    for row in layer.iter_mut() {
                        if !r.chance(infeasible) { row[j] = Some((r.below(nb[d + 1]), r.range(costs.0, costs.1))); }
                    }
                }
            }
            tr.push(layer);
        }
        let slack = (0..=n).map(|_| if r.chance(25) { r.range(0, 2) } else { 0 }).collect();
        let use_phi = r.chance(35);
        let phi = (0..=n).map(|d| (0..nb[d]).map(|_| if use_phi && d < n { r.range(-3, 3) } else { 0 }).collect()).collect();
        let psi = (0..=n).map(|d| if use_phi && d < n { r.range(-2, 2) } else { 0 }).collect();
        let v0 = *r.pick(&[0, 0, 0, 1, 7, -1, -5, -40]);
        let mut m = Model {
            n, order, nb, vals, tr, v0, kind, slack, phi, psi, rub: vec![], rank: vec![],
            salt: r.next(), off: 0, scale: 1, voff: 0, vmul: 1, stubborn: false,
            dom_calls: AtomicUsize::new(0), log: None, yields: false,
        };
        m.rank = (0..=m.n).map(|d| (0..m.nb[d]).map(|_| r.range(0, 3)).collect()).collect();
        if r.chance(15) { for l in m.rank.iter_mut() { for x in l.iter_mut() { *x = 0 } } }
        let w = m.best_completion();
        let mode = r.below(5);
        m.rub = (0..=m.n).map(|d| (0..m.nb[d]).map(|b| match (mode, w[d][b]) {
            (0, _) => INF,
            (1, Some(x)) => x,
            (1, None) => -INF,
            (2, Some(x)) => x + r.range(0, 3),
            (2, None) => *r.pick(&[-INF, -4, 0, 3]),
            (3, Some(x)) => if r.chance(30) { INF } else { x + r.range(0, 6) },
            (3, None) => *r.pick(&[-INF, INF]),
            (_, Some(x)) => x + r.range(0, 1),
            (_, None) => INF,
        }).collect()).collect();
        if m.kind.ordered() {
            // the dominating state must have the larger bound as well: the bound of a state is that of everything below it
            for d in 0..=m.n { for b in 1..m.nb[d] { let p = m.rub[d][b - 1]; if m.rub[d][b] < p { m.rub[d][b] = p; } } }
        }
        match r.below(6) {
            0 => { m.off = *r.pick(&[1i64 << 40, -(1i64 << 40), 1i64 << 60, -(1i64 << 60)]); }
            1 => { m.scale = *r.pick(&[1000, 1i64 << 33]); }
            2 => { m.off = -(1 << 45); m.scale = 7; }
            _ => {}
        }
        match r.below(8) {
            0 => { m.voff = *r.pick(&[1i64 << 40, -(1i64 << 50), i64::MAX - 1000, i64::MIN + 1000]); }
            1 => { m.vmul = *r.pick(&[-1, 256, 1i64 << 32, -(1i64 << 33)]); }
            _ => {}
        }
        m.stubborn = m.n > 0 && r.chance(15);
        m
    }

    /// replaces the estimates by ones which are close to the best completions
    pub fn tighten(&mut self, r: &mut Rng) {
        let w = self.best_completion();
        let far = *r.pick(&[0, 1, 3, 10, 40]);
        for d in 0..=self.n { for b in 0..self.nb[d] {
            self.rub[d][b] = match w[d][b] { Some(x) => x + r.range(0, far), None => -INF };
            if self.kind.ordered() && b > 0 { self.rub[d][b] = self.rub[d][b].max(self.rub[d][b - 1]); }
        } }
    }
    pub fn copy(&self) -> Model {
        Model {
            n: self.n, order: self.order.clone(), nb: self.nb.clone(), vals: self.vals.clone(), tr: self.tr.clone(), v0: self.v0, kind: self.kind, slack: self.slack.clone(),
            phi: self.phi.clone(), psi: self.psi.clone(), rub: self.rub.clone(), rank: self.rank.clone(), salt: self.salt, off: self.off, scale: self.scale, voff: self.voff, vmul: self.vmul, stubborn: self.stubborn,
            dom_calls: AtomicUsize::new(0), log: None, yields: self.yields,
        }
    }

    /* ------------------------ semantics (small integers) ------------------- */
    /// best completion (raw costs) of each base state
    pub fn best_completion(&self) -> Vec<Vec<Option<i64>>> {
        let mut w = vec![vec![]; self.n + 1];
        w[self.n] = vec![Some(0); self.nb[self.n]];
        for d in (0..self.n).rev() {
            w[d] = (0..self.nb[d]).map(|b| {
                self.tr[d][b].iter().filter_map(|t| t.and_then(|(x, c)| w[d + 1][x].map(|y| y + c))).max()
            }).collect();
        }
        w
    }
    pub fn f(&self, d: usize, set: u64) -> i64 {
        if d >= self.n { return 0; }
        let low = set.trailing_zeros() as usize;
        self.phi[d][low] + self.psi[d] * (set.count_ones() as i64 - 1)
    }
    /// best completion of a (singleton or set) state, in node values
    pub fn wset(&self, w: &[Vec<Option<i64>>], d: usize, set: u64) -> Option<i64> {
        (0..self.nb[d]).filter(|b| set >> b & 1 == 1).filter_map(|b| w[d][b]).max().map(|x| x + self.f(d, set))
    }
    pub fn opt(&self) -> Option<i64> { self.wset(&self.best_completion(), 0, 1).map(|x| x + self.v0) }
    pub fn step(&self, d: usize, set: u64, k: usize) -> Option<(u64, i64)> {
        let mut t = 0u64;
        let mut c = None;
        for b in 0..self.nb[d] {
            if set >> b & 1 == 1 {
                if let Some((x, y)) = self.tr[d][b][k] {
                    t |= 1 << x;
                    c = Some(c.map_or(y, |z: i64| z.max(y)));
                }
            }
        }
        if t == 0 { return None; }
        if self.kind.ordered() { t = 1 << (63 - t.leading_zeros()); }
        c.map(|c| (t, c + self.f(d, set) - self.f(d + 1, t)))
    }
    pub fn merged(&self, d: usize, sets: &[u64]) -> u64 {
        let u = sets.iter().fold(0, |a, b| a | b);
        match self.kind {
            Kind::Union => u,
            Kind::Top => (1u64 << self.nb[d]).wrapping_sub(1),
            Kind::Dom => 1 << (63 - u.leading_zeros()),
            Kind::Peak => 1 << (self.nb[d] - 1),
        }
    }
    pub fn rubset(&self, d: usize, set: u64) -> i64 {
        let x = (0..self.nb[d]).filter(|b| set >> b & 1 == 1).map(|b| self.rub[d][b]).max().unwrap_or(-INF);
        if x >= INF { INF } else if x <= -INF { -INF } else { x + self.f(d, set) }
    }
    pub fn rankset(&self, d: usize, set: u64) -> i64 {
        self.rank[d][set.trailing_zeros() as usize] + set.count_ones() as i64
    }
    /* ------------------------- observation helpers ------------------------- */
    pub fn cost_out(&self, c: i64) -> isize { (c * self.scale) as isize }
    pub fn val_out(&self, v: i64) -> isize {
        if v >= INF { isize::MAX } else if v <= -INF { isize::MIN } else { (self.off + v * self.scale) as isize }
    }
    /// observed totals -> small integers
    pub fn norm(&self, y: isize) -> i64 {
        if y >= isize::MAX / 4 * 3 { return INF; }
        if y <= isize::MIN / 4 * 3 { return -INF; }
        let z = y as i64 - self.off;
        if z % self.scale != 0 { return WEIRD; }
        let q = z / self.scale;
        if q.abs() > 500_000_000 { if q > 0 { INF } else { -INF } } else { q }
    }
    pub fn st(&self, d: usize, set: u64) -> St { St { d: d as u16, set, salt: self.salt } }
    pub fn ev(&self, e: Ev) { if let Some(l) = &self.log { l.lock().unwrap().push(e); } }
    pub fn kindex(&self, d: usize, v: isize) -> Option<usize> { self.vals[d].iter().position(|x| *x as isize == v) }
    pub fn dec_out(&self, v: i64) -> isize { (self.voff + v * self.vmul) as isize }
    pub fn dec_in(&self, v: isize) -> i64 {
        let z = v as i128 - self.voff as i128;
        let m = self.vmul as i128;
        if z % m != 0 || (z / m).abs() > 100_000 { WEIRD } else { (z / m) as i64 }
    }
    pub fn path_js(&self, p: &[Decision]) -> Vec<(i64, i64)> {
        p.iter().map(|d| (d.var.id() as i64, self.dec_in(d.value))).collect()
    }
    pub fn json(&self) -> String {
        let mut tr = String::new();
        let t: Vec<Vec<Vec<Raw>>> = self.tr.iter().map(|l| l.iter().map(|b| b.iter().map(|k| Raw(match k {
            None => "[]".into(), Some((x, c)) => format!("[{},{}]", x + 1, c)
        })).collect()).collect()).collect();
        t.js(&mut tr);
        Obj::new().f("n", &self.n).f("order", &self.order).f("nb", &self.nb).f("vals", &self.vals)
            .raw("tr", &tr).f("v0", &self.v0)
            .f("kind", match self.kind { Kind::Union => "union", Kind::Top => "top", Kind::Dom => "dom", Kind::Peak => "peak" })
            .f("slack", &self.slack).f("phi", &self.phi).f("psi", &self.psi).f("rub", &self.rub).f("rank", &self.rank)
            .done()
    }
    /// {1,3} for the mask 0b101
    pub fn set_js(set: u64) -> Vec<i64> { (0..64).filter(|b| set >> b & 1 == 1).map(|b| b + 1).collect() }
}

impl Problem for Model {
    type State = St;
    fn nb_variables(&self) -> usize { self.n }
    fn initial_state(&self) -> St { self.st(0, 1) }
    fn initial_value(&self) -> isize { self.val_out(self.v0) }
    fn next_variable(&self, next_layer: &mut dyn Iterator<Item = &St>) -> Option<Variable> {
        match next_layer.next() {
            None => { if self.stubborn { Some(Variable(self.order[self.n - 1])) } else { None } }
            Some(s) => {
                let d = s.d as usize;
                if self.log.is_some() {
                    let mut all = vec![(s.d, s.set)];
                    all.extend(next_layer.map(|s| (s.d, s.set)));
                    self.ev(Ev::Var(all));
                }
                if d >= self.n { None } else { Some(Variable(self.order[d])) }
            }
        }
    }
    fn for_each_in_domain<F>(&self, var: Variable, s: &St, mut f: F) where F: FnMut(Decision) {
        self.dom_calls.fetch_add(1, SeqCst);
        self.ev(Ev::Dom(s.d, s.set, var.id()));
        if self.yields { vyield(); }
        let d = s.d as usize;
        if d >= self.n { return; }
        for k in 0..self.vals[d].len() {
            if self.step(d, s.set, k).is_some() { f(Decision { var, value: self.dec_out(self.vals[d][k]) }) }
        }
    }
    fn transition(&self, s: &St, dec: Decision) -> St {
        let d = s.d as usize;
        let k = self.kindex(d, self.dec_in(dec.value) as isize).expect("harness: transition called with a decision outside the domain");
        let (t, c) = self.step(d, s.set, k).expect("harness: transition called with an infeasible decision");
        self.ev(Ev::Tr(s.d, s.set, self.dec_in(dec.value) as isize, t, c));
        self.st(d + 1, t)
    }
    fn transition_cost(&self, s: &St, dec: Decision) -> isize {
        let d = s.d as usize;
        let k = self.kindex(d, self.dec_in(dec.value) as isize).expect("harness: transition_cost called with a decision outside the domain");
        self.cost_out(self.step(d, s.set, k).expect("harness: transition_cost called with an infeasible decision").1)
    }
    fn estimate(&self, s: &St) -> isize {
        let x = self.rubset(s.d as usize, s.set);
        if x >= INF { isize::MAX } else if x <= -INF { isize::MIN } else { self.cost_out(x) }
    }
}
pub struct Rel<'a>(pub &'a Model);
impl Relaxation for Rel<'_> {
    type State = St;
    fn merge(&self, states: &mut dyn Iterator<Item = &St>) -> St {
        let all: Vec<St> = states.cloned().collect();
        let d = all[0].d;
        for s in all.iter() { self.0.ev(Ev::MergeIn(s.d, s.set)); }
        let sets: Vec<u64> = all.iter().map(|s| s.set).collect();
        let m = self.0.merged(d as usize, &sets);
        self.0.ev(Ev::MergeOut(d, m));
        self.0.st(d as usize, m)
    }
    fn relax(&self, src: &St, dest: &St, new: &St, dec: Decision, cost: isize) -> isize {
        let m = self.0;
        let d = dest.d as usize;
        let r = cost + m.cost_out(m.f(d, dest.set) - m.f(d, new.set) + m.slack[d]);
        if m.log.is_some() { m.ev(Ev::Relax(src.set, dest.set, new.set, m.dec_in(dec.value) as isize, (cost as i64) / m.scale, (r as i64) / m.scale)); }
        r
    }
}
pub struct Rank<'a>(pub &'a Model);
impl StateRanking for Rank<'_> {
    type State = St;
    fn compare(&self, a: &St, b: &St) -> Ordering {
        self.0.rankset(a.d as usize, a.set).cmp(&self.0.rankset(b.d as usize, b.set))
    }
}
/// The heuristic counts the subproblems it is asked about: asking again about the subproblem which the
/// thread has just asked about (for its second diagram, say) does not count
pub struct Width { pub by_depth: Vec<usize>, pub calls: Arc<AtomicUsize>, pub nap: std::time::Duration, last: Mutex<Vec<(ThreadId, usize, St)>> }
impl Width {
    pub fn new(by_depth: Vec<usize>) -> Width { Width { by_depth, calls: Default::default(), nap: Default::default(), last: Default::default() } }
}
impl WidthHeuristic<St> for Width {
    fn max_width(&self, s: &St) -> usize {
        let (me, at) = (std::thread::current().id(), s as *const St as usize);
        let mut last = self.last.lock().unwrap();
        let k = last.iter().position(|x| x.0 == me);
        if !k.is_some_and(|k| last[k].1 == at && last[k].2 == *s) { if self.calls.fetch_add(1, SeqCst) == 0 && !self.nap.is_zero() { std::thread::sleep(self.nap); } }
        match k { Some(k) => last[k] = (me, at, s.clone()), None => last.push((me, at, s.clone())) }
        drop(last);
        self.by_depth[s.d as usize]
    }
}

#[cfg(feature = "sched")]
pub fn vyield() { parking_lot::sched::yield_point() }
#[cfg(not(feature = "sched"))]
pub fn vyield() { std::thread::yield_now() }

/// Is `p` (in any order) a complete feasible assignment?  Its value if so.
pub fn solution_value(m: &Model, p: &[(i64, i64)]) -> Option<i64> {
    if p.len() != m.n { return None; }
    let mut b = 0;
    let mut v = m.v0 + m.f(0, 1);
    for d in 0..m.n {
        let hits: Vec<_> = p.iter().filter(|x| x.0 == m.order[d] as i64).collect();
        if hits.len() != 1 { return None; }
        let k = m.kindex(d, hits[0].1 as isize)?;
        let (x, c) = m.tr[d][b][k]?;
        b = x;
        v += c;
    }
    Some(v)
}
