//! Runs of the experiment runner: the printed line against the run.
use crate::model::*;
use crate::util::*;
use crate::{solve, Ctx};
use engineering::xputils::{resolution_header, solve_timeout, SolverType};
use std::io::{BufRead, BufReader};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;
use std::time::Duration;

const NAMES: [&str; 4] = ["alpha", "a-model", "x", "a name which is longer than the column"];
pub struct Case { /// how long the run takes at least
    pub nap: Duration, pub c: solve::Case, pub name: &'static str, pub to: Duration }

pub fn generate(r: &mut Rng) -> Case {
    let which = *r.pick(&[0u8, 1]);
    let mut c = solve::Case::generate(r, &solve::Profile { which, interrupts: false, threads_max: 3, big: 8, huge: 0 });
    if c.solver == 0 || c.solver == 3 { c.solver = 1; }
    c.junk = false;
    if r.chance(50) { c.threads = 1; }
    // infeasible problems, and bounds around zero
    match r.below(8) {
        0 if c.model.n > 0 => { let d = r.below(c.model.n); for row in c.model.tr[d].iter_mut() { for k in row.iter_mut() { *k = None; } } }
        1 | 2 if c.model.off == 0 => { if let Some(o) = c.model.opt() { if r.chance(70) { c.model.v0 -= o; } else { c.model.v0 = -o - 2; } } }
        _ => {}
    }
    let to = match r.below(10) { 0 => 0u64, 1 => 1_000, 2 => r.range(1_000, 60_000) as u64, 3 => r.range(10_000, 400_000) as u64, _ => 60_000_000_000 };
    let nap = Duration::from_micros(match r.below(2000) { 0 => r.range(1_000_000, 1_600_000), 1..=20 => r.range(1_000, 30_000), _ => 0 } as u64);
    Case { nap, c, name: NAMES[r.below(4)], to: Duration::from_nanos(to) }
}
pub fn record(id: &str, k: &Case, body: Obj) -> String {
    body.f("id", id).raw("m", &k.c.model.json()).f("name", k.name).f("nlen", &k.name.len()).f("asked", if k.c.solver == 2 { "barrier" } else { "parallel" })
        .f("threads", &k.c.threads).f("long", &(k.to.as_secs() > 10)).f("limit", &(k.to.as_micros().min(60_000_000) as i64 / 100)).raw("cfg", &k.c.cfg_js()).done()
}
pub fn lines(path: &str, from: u64) -> (Vec<String>, u64) {
    use std::io::{Seek, SeekFrom};
    let mut f = std::fs::File::open(path).unwrap();
    f.seek(SeekFrom::Start(from)).unwrap();
    let ls: Vec<String> = BufReader::new(&mut f).lines().map(|l| l.unwrap_or_default()).collect();
    let end = std::fs::metadata(path).unwrap().len();
    (ls, end)
}
fn empty(fatal: &str) -> Obj {
    Obj::new().f("fatal", fatal).f("lines", &0usize).f("pname", "").f("solver", "").f("status", "").f("some", &false).f("value", &0i64).f("lb", &0i64).f("ub", &0i64)
        .f("gap", &0i64).f("explored", &0usize).f("exploreddd", &0usize).f("ret", &0i64).f("domcalls", &0usize).f("widthcalls", &0usize).f("header", &Vec::<String>::new()).f("dur", &0i64).f("outer", &0i64).f("busy", &0i64).f("mb", &false)
}
pub fn run_case(ctx: &mut Ctx, idx: u64, r: &mut Rng) {
    let k = generate(r);
    let m = &k.c.model;
    let rel = Rel(m);
    let rank = Rank(m);
    let mut width = Width::new(k.c.width.clone());
    width.nap = k.nap;
    m.dom_calls.store(0, SeqCst);
    let from = std::fs::metadata(&ctx.stdout).map(|x| x.len()).unwrap_or(0);
    resolution_header();
    let (head, from) = lines(&ctx.stdout, from);
    let head: Vec<String> = head.iter().flat_map(|l| l.split('|').map(|x| x.trim().to_string())).collect();
    let t0 = std::time::Instant::now();
    let res = catch_unwind(AssertUnwindSafe(|| {
        solve_timeout(k.name, k.to, &width, m, &rel, &rank, Some(k.c.threads), if k.c.solver == 2 { SolverType::Barrier } else { SolverType::Parallel }, k.c.cutset)
    }));
    let outer = t0.elapsed().as_micros() as i64 / 100;
    let dom = m.dom_calls.load(SeqCst);
    let wid = width.calls.load(SeqCst);
    let busy = if wid > 0 { k.nap.as_micros() as i64 / 100 } else { 0 };
    let (ls, _) = lines(&ctx.stdout, from);
    let id = format!("{}-{}-{}", ctx.exp, ctx.shard, idx);
    let mut bad = "";
    let body = match res {
        Err(_) => {
            let msg = { let mut l = solve::LAST_PANIC.lock().unwrap(); let x = l.clone(); l.clear(); x };
            bad = "fatal";
            empty(&format!("panic: {msg}"))
        }
        Ok(ret) => {
            let f: Vec<&str> = ls.last().map_or(vec![], |l| l.split(" | ").map(|x| x.trim()).collect());
            if f.len() != 11 || ls.len() != 1 { bad = "format"; empty(&format!("unreadable line: {}", ls.join(" // "))) }
            else {
                let int = |s: &str| s.parse::<isize>().map(|x| m.norm(x)).unwrap_or(WEIRD);
                let some = f[5] != "not found";
                let value = if some { int(f[5]) } else { 0 };
                let gap = match f[8].parse::<f64>() { Ok(x) if x.is_finite() => (x * 10000.0).round() as i64, _ => -1 };
                let (lb, ub) = (int(f[6]), int(f[7]));
                let ex = f[9].parse::<usize>().unwrap_or(usize::MAX / 2) as i64;
                let dd = f[10].parse::<usize>().unwrap_or(usize::MAX / 2) as i64;
                let opt = m.opt();
                if f[2] == "Proved" {
                    if value != opt.unwrap_or(0) || some != opt.is_some() || lb != ub || gap != 0 || (some && lb != value) { bad = "proved"; }
                } else if f[2] != "Timeout" || k.to.as_secs() > 10 { bad = "status"; }
                if m.norm(ret) != ub || gap < 0 || gap > 10000 || dd != dom as i64 || ex < wid as i64 || (k.c.threads == 1 && ex != wid as i64) { bad = "report"; }
                // in ten-thousandths of a second; printed with two digits
                let dur = f[3].parse::<f64>().map(|x| (x * 10000.0).round() as i64).unwrap_or(-1);
                if head.len() != 11 || dur < 0 || dur > outer + 60 || dur + 60 < busy || (f[2] == "Timeout" && dur + 60 < (k.to.as_micros() / 100) as i64) { bad = "duration"; }
                if lb > ub || opt.map_or(false, |o| o < lb || o > ub) || (some && lb != value) || f[0] != k.name || f[1] != (if k.c.solver == 2 { "barrier" } else { "parallel" }) { bad = "bounds"; }
                ctx.count(f[2], 1);
                Obj::new().f("fatal", "").f("lines", &ls.len()).f("pname", f[0]).f("solver", f[1]).f("status", f[2]).f("some", &some).f("value", &value).f("lb", &lb).f("ub", &ub)
                    .f("gap", &gap).f("explored", &ex).f("exploreddd", &dd).f("ret", &m.norm(ret)).f("domcalls", &dom).f("widthcalls", &wid)
                    .f("header", &head).f("dur", &dur).f("outer", &outer).f("busy", &busy).f("mb", &f[4].parse::<f64>().is_ok_and(|x| x.is_finite() && x >= 0.0))
            }
        }
    };
    ctx.count("cases", 1);
    if busy > 10000 { ctx.count("over_a_second", 1); }
    if !bad.is_empty() { ctx.count(&format!("bad_{bad}"), 1); }
    if ctx.wants(bad, idx) {
        let line = record(&id, &k, body);
        ctx.emit(&line);
    }
}
pub fn fatal_record(exp: &str, seed: u64, shard: u64, idx: u64, what: &str, msg: &str) -> String {
    let mut r = crate::rng_for(exp, seed, shard, idx);
    let k = generate(&mut r);
    record(&format!("{exp}-{shard}-{idx}"), &k, empty(&format!("{what}: {msg}")))
}
