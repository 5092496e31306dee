//! Histories of operations on the two frontiers.
use crate::util::*;
use crate::Ctx;
use engineering::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Fs { pub key: usize, pub coarse: bool }
impl PartialEq for Fs { fn eq(&self, o: &Fs) -> bool { self.key == o.key } }
impl Eq for Fs {}
impl Hash for Fs {
    fn hash<H: Hasher>(&self, h: &mut H) { if self.coarse { (self.key % 3).hash(h) } else { self.key.hash(h) } }
}
pub struct FRank(pub Vec<i64>);
impl StateRanking for FRank {
    type State = Fs;
    fn compare(&self, a: &Fs, b: &Fs) -> Ordering { self.0[a.key].cmp(&self.0[b.key]) }
}
#[derive(Clone, Debug)]
pub enum Op { Push { s: usize, v: i64, u: i64 }, Pop, Clear, Len }
pub struct Case { pub nodup: bool, pub rank: Vec<i64>, pub coarse: bool, pub base: i64, pub scale: i64, pub ops: Vec<Op> }
/// what an operation answered: (some, s, v, u, p, len)
pub type Ans = (bool, i64, i64, i64, i64, i64);

pub fn generate(exp: &str, r: &mut Rng) -> Case {
    let nodup = exp == "frn" || (exp == "fr" && r.chance(50));
    let giant = r.below(400) == 0;
    let big = giant || r.chance(4);
    let keys = if giant { r.range(300, 3000) } else if big { r.range(20, 400) } else { *r.pick(&[1, 2, 3, 4, 6, 9, 30]) } as usize;
    let len = if giant { r.range(1500, 5000) } else if big { r.range(200, 700) } else { *r.pick(&[4, 8, 12, 20, 40, 60]) } as usize;
    let ranks = *r.pick(&[0i64, 1, 3, 1000]);
    let span = *r.pick(&[0i64, 1, 2, 5, 30]);
    let vspan = *r.pick(&[0i64, 1, 3, 10]);
    let rank: Vec<i64> = (0..keys).map(|_| r.range(0, ranks)).collect();
    let mut ops = vec![];
    let mut pushing = 70;
    for i in 0..len {
        if r.chance(6) { pushing = *r.pick(&[20, 40, 55, 70, 90]); }
        if big && i < len / 2 { pushing = 90; }
        ops.push(match r.below(100) {
            x if x < 2 && (!big || r.below(100) == 0) => Op::Clear,
            x if x < 6 => Op::Len,
            _ if r.chance(pushing) => Op::Push {
                s: r.below(keys),
                v: if r.chance(3) { *r.pick(&[INF, -INF]) } else { r.range(-vspan, vspan) },
                u: if r.chance(6) { *r.pick(&[INF, INF, -INF]) } else { r.range(-span, span) },
            },
            _ => Op::Pop,
        });
    }
    if r.chance(70) { for _ in 0..len + 1 { ops.push(Op::Pop); } }
    Case { nodup, rank, coarse: r.chance(30), base: *r.pick(&[0, 0, 1i64 << 40, -(1i64 << 50)]), scale: *r.pick(&[1, 1, 1000]), ops }
}
impl Case {
    fn out(&self, x: i64) -> isize { if x >= INF { isize::MAX } else if x <= -INF { isize::MIN } else { (x * self.scale + self.base) as isize } }
    fn back(&self, y: isize) -> i64 {
        if y == isize::MAX { return INF; }
        if y == isize::MIN { return -INF; }
        let z = y as i64 - self.base;
        if z % self.scale != 0 || (z / self.scale).abs() > 100_000 { WEIRD } else { z / self.scale }
    }
    fn exec<F: Frontier<State = Fs>>(&self, f: &mut F) -> Vec<Ans> {
        let mut out = vec![];
        for (i, op) in self.ops.iter().enumerate() {
            let mut a: Ans = (false, 0, 0, 0, 0, 0);
            match op {
                Op::Push { s, v, u } => f.push(SubProblem {
                    state: Arc::new(Fs { key: *s, coarse: self.coarse }), value: self.out(*v), ub: self.out(*u),
                    path: vec![Decision { var: Variable(i + 1), value: -(i as isize) - 1 }],
                }),
                Op::Pop => if let Some(n) = f.pop() {
                    let p = if n.path.len() == 1 && n.path[0].value == -(n.path[0].var.id() as isize) { n.path[0].var.id() as i64 } else { -1 };
                    a = (true, n.state.key as i64, self.back(n.value), self.back(n.ub), p, 0);
                },
                Op::Clear => f.clear(),
                Op::Len => {}
            }
            a.5 = f.len() as i64;
            if f.is_empty() != (a.5 == 0) { a.5 = -1; }
            out.push(a);
        }
        out
    }
    pub fn run(&self) -> (Vec<Ans>, String) {
        let rank = FRank(self.rank.clone());
        let r = catch_unwind(AssertUnwindSafe(|| {
            if self.nodup { let mut f = NoDupFrontier::new(&rank); self.exec(&mut f) } else { let mut f = SimpleFrontier::new(&rank); self.exec(&mut f) }
        }));
        match r { Ok(x) => (x, String::new()), Err(_) => { let m = crate::solve::LAST_PANIC.lock().unwrap().clone(); crate::solve::LAST_PANIC.lock().unwrap().clear(); (vec![], format!("panic: {m}")) } }
    }
    pub fn opinion(&self, ans: &[Ans]) -> &'static str {
        let mut pend: Vec<(usize, i64, i64, Vec<i64>)> = vec![];
        for (i, (op, a)) in self.ops.iter().zip(ans).enumerate() {
            match op {
                Op::Push { s, v, u } => {
                    let p = i as i64 + 1;
                    match pend.iter_mut().find(|x| self.nodup && x.0 == *s) {
                        Some(x) => {
                            if *v > x.1 { x.1 = *v; x.3 = vec![p]; } else if *v == x.1 { x.3.push(p); }
                            x.2 = x.2.max(*u);
                        }
                        None => pend.push((*s, *v, *u, vec![p])),
                    }
                }
                Op::Pop => {
                    if a.0 == pend.is_empty() { return "emptiness"; }
                    if a.0 {
                        let Some(k) = pend.iter().position(|x| x.0 as i64 == a.1 && x.1 == a.2 && x.2 == a.3 && x.3.contains(&a.4)) else { return "stranger" };
                        if pend.iter().any(|x| (x.2, self.rank[x.0]) > (pend[k].2, self.rank[pend[k].0])) { return "order"; }
                        pend.swap_remove(k);
                    }
                }
                Op::Clear => pend.clear(),
                Op::Len => {}
            }
            if a.5 != pend.len() as i64 { return "length"; }
        }
        ""
    }
    pub fn record(&self, id: &str, ans: &[Ans], fatal: &str) -> String {
        let mut v = vec![];
        for (op, a) in self.ops.iter().zip(ans) {
            v.push(Raw(match op {
                Op::Push { s, v, u } => Obj::new().f("o", "push").f("s", &(s + 1)).f("v", v).f("u", u).f("len", &a.5).done(),
                Op::Pop if a.0 => Obj::new().f("o", "pop").f("s", &(a.1 + 1)).f("v", &a.2).f("u", &a.3).f("p", &a.4).f("len", &a.5).done(),
                Op::Pop => Obj::new().f("o", "none").f("len", &a.5).done(),
                Op::Clear => Obj::new().f("o", "clear").f("len", &a.5).done(),
                Op::Len => Obj::new().f("o", "len").f("len", &a.5).done(),
            }));
        }
        Obj::new().f("id", id).f("kind", if self.nodup { "nodup" } else { "simple" }).f("rank", &self.rank).f("fatal", fatal).f("ops", &v).done()
    }
}
pub fn fatal_record(exp: &str, seed: u64, shard: u64, idx: u64, what: &str, msg: &str) -> String {
    let mut r = crate::rng_for(exp, seed, shard, idx);
    generate(exp, &mut r).record(&format!("{exp}-{shard}-{idx}"), &[], &format!("{what}: {msg}"))
}
pub fn run_case(ctx: &mut Ctx, idx: u64, r: &mut Rng) {
    let c = generate(&ctx.exp, r);
    let (ans, fatal) = c.run();
    let bad = if fatal.is_empty() { c.opinion(&ans) } else { "fatal" };
    ctx.count("cases", 1);
    ctx.count("operations", c.ops.len() as u64);
    if !bad.is_empty() { ctx.count(&format!("bad_{bad}"), 1); }
    if c.ops.len() > 3000 { ctx.count("giant", 1); }
    // the longest ones are left to the prescreen
    if (c.ops.len() <= 3000 || !bad.is_empty()) && ctx.wants(bad, idx) {
        let line = c.record(&format!("{}-{}-{}", ctx.exp, ctx.shard, idx), &ans, &fatal);
        ctx.emit(&line);
    }
}
fn parse(text: &str) -> Vec<Op> {
    text.split_whitespace().map(|o| {
        let q: Vec<&str> = o.split(':').collect();
        match q[0] {
            "p" => Op::Push { s: q[1].parse::<usize>().unwrap() - 1, v: q[2].parse().unwrap(), u: q[3].parse().unwrap() },
            "o" => Op::Pop,
            "c" => Op::Clear,
            x => panic!("bad op {x}"),
        }
    }).collect()
}
/// Replays the histories of a file (one per line, operations p:state:value:bound, o, c), each followed by every
/// operation of the alphabet and by the pops which empty the frontier. Writes a sample of the records and all those
/// which look wrong; prints how many were run.
pub fn replay(path: &str, out: &str, rank: &str, values: i64, bounds: i64, sample: u64) {
    use std::io::Write;
    let text = std::fs::read_to_string(path).unwrap();
    let lines: Vec<&str> = text.lines().filter(|l| !l.is_empty() || true).collect();
    let rank: Vec<i64> = rank.split(',').map(|x| x.parse().unwrap()).collect();
    let mut alphabet = vec![Op::Pop, Op::Clear];
    for s in 0..rank.len() { for v in 0..values { for u in 0..bounds { alphabet.push(Op::Push { s, v, u }); } } }
    let w = std::sync::Mutex::new((std::io::BufWriter::new(std::fs::File::create(out).unwrap()), 0u64, 0u64));
    std::thread::scope(|sc| for t in 0..8 {
        let (lines, rank, alphabet, w) = (&lines, &rank, &alphabet, &w);
        sc.spawn(move || {
            let mut total = 0u64;
            for (i, line) in lines.iter().enumerate().skip(t).step_by(8) {
                for nodup in [true, false] {
                    for (j, op) in alphabet.iter().enumerate() {
                        let mut ops = parse(line);
                        ops.push(op.clone());
                        let n = ops.len();
                        for _ in 0..n + 1 { ops.push(Op::Pop); }
                        let c = Case { nodup, rank: rank.clone(), coarse: i % 2 == 1, base: 0, scale: 1, ops };
                        let (ans, fatal) = c.run();
                        let bad = if fatal.is_empty() { c.opinion(&ans) } else { "fatal" };
                        total += 1;
                        let mut g = None;
                        if !bad.is_empty() { let mut x = w.lock().unwrap(); x.1 += 1; if x.1 <= 20 { g = Some(x); } }
                        else if (i as u64 * 31 + j as u64 * 7 + nodup as u64) % sample == 0 { g = Some(w.lock().unwrap()); }
                        if let Some(mut g) = g { writeln!(g.0, "{}", c.record(&format!("spec-{i}-{j}"), &ans, &fatal)).unwrap(); }
                    }
                }
            }
            w.lock().unwrap().2 += total;
        });
    });
    let g = w.lock().unwrap();
    println!("{{\"histories\": {}, \"suspicious\": {}}}", g.2, g.1);
}
