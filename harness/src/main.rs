mod dd;
mod fr;
mod misc;
mod rep;
mod opt;
mod tmo;
mod trace;
mod model;
mod solve;
mod util;

use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::Mutex;
use std::time::{Duration, Instant};
use util::*;

/// What an experiment does with case number `idx` of a shard.
pub struct Ctx {
    pub exp: String,
    pub seed: u64,
    pub shard: u64,
    pub quota: usize,
    pub sink: std::fs::File,
    pub stdout: String,
    pub emitted: usize,
    pub deep: u64,
    pub counts: std::collections::BTreeMap<String, u64>,
}
impl Ctx {
    pub fn count(&mut self, k: &str, n: u64) { *self.counts.entry(k.to_string()).or_insert(0) += n; }
    pub fn emit(&mut self, line: &str) {
        let mut s = line.to_string();
        s.push('\n');
        self.sink.write_all(s.as_bytes()).unwrap();
    }
    /// Should a case be submitted to the judge?
    pub fn wants(&mut self, tag: &str, idx: u64) -> bool {
        if !tag.is_empty() {
            self.count(&format!("suspicious_{tag}"), 1);
            return self.counts[&format!("suspicious_{tag}")] <= 8;
        }
        // the quota is spread over the run: cases 0, 1, 2, 4, 6, 9, ...
        let k = self.emitted as u64;
        if self.emitted < self.quota && idx >= k + k * k / 256 { self.emitted += 1; true } else { false }
    }
}

pub struct Current { pub exp: String, pub seed: u64, pub shard: u64, pub idx: u64, pub sub: String, pub out: String }
pub static CURRENT: Mutex<Current> = Mutex::new(Current { exp: String::new(), seed: 0, shard: 0, idx: 0, sub: String::new(), out: String::new() });

/// Called by the scheduler when a run can never end.
#[cfg(feature = "sched")]
pub fn on_fatal(what: &str, rep: &parking_lot::sched::Report) {
    let c = CURRENT.lock().unwrap();
    let panic = solve::LAST_PANIC.lock().map(|p| p.clone()).unwrap_or_default();
    let what = if panic.is_empty() { what } else { "panic" };
    let msg = if panic.is_empty() { format!("{} threads, {} decisions", rep.threads, rep.decisions) } else { panic };
    write_fatal(&c, what, &msg);
    let _ = rep;
    unsafe { _exit(77) }
}
pub fn write_fatal(c: &Current, what: &str, msg: &str) {
    let line = fatal_record(&c.exp, c.seed, c.shard, c.idx, &c.sub, what, msg);
    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(&c.out) {
        let _ = f.write_all((line + "\n").as_bytes());
    }
}

fn rng_for(exp: &str, seed: u64, shard: u64, idx: u64) -> Rng {
    let mut h = 1469598103934665603u64;
    for b in exp.bytes() { h = (h ^ b as u64).wrapping_mul(1099511628211); }
    Rng::new(&[h, seed, shard, idx])
}

fn profile(exp: &str) -> Option<(solve::Profile, usize)> {
    Some(match exp {
        "par" => (solve::Profile { which: 0, interrupts: false, threads_max: 4, big: 50, huge: 6 }, 6),
        "bar" => (solve::Profile { which: 1, interrupts: false, threads_max: 4, big: 50, huge: 6 }, 6),
        "int" => (solve::Profile { which: 2, interrupts: true, threads_max: 4, big: 45, huge: 6 }, 6),
        "both" => (solve::Profile { which: 2, interrupts: false, threads_max: 6, big: 50, huge: 6 }, 6),
        _ => return None,
    })
}
/// the k-th schedule of a case
fn vary(c: &mut solve::Case, r: &mut Rng, k: usize) {
    if k > 0 {
        c.sched.seed = r.next();
        c.sched.policy = r.below(5) as u8;
        c.sched.param = r.range(1, 6) as u32;
        c.sched.coarse = r.chance(50);
        if c.stop != solve::Stop::Maximize && c.stop != solve::Stop::Never && !c.huge && r.chance(70) {
            let x = r.range(1, 25) as usize;
            c.stop = if r.chance(50) { solve::Stop::Kth(x) } else { solve::Stop::From(x) };
        }
    }
}

fn fatal_record(exp: &str, seed: u64, shard: u64, idx: u64, sub: &str, what: &str, msg: &str) -> String {
    let mut r = rng_for(exp, seed, shard, idx);
    if let Some((p, _)) = profile(exp) {
        let mut c = solve::Case::generate(&mut r, &p);
        let k: usize = sub.parse().unwrap_or(0);
        for j in 0..=k { vary(&mut c, &mut r, j); }
        let o = solve::Outcome { fatal: what.into(), message: msg.into(), status: "none".into(), lb: -INF, ub: INF, ..Default::default() };
        return solve_record(exp, shard, idx, &c, &[o]);
    }
    match exp {
        "sys" => {
            let mut c = solve::Case::tiny(&mut r);
            c.sched.script = sub.split('.').filter_map(|x| x.parse().ok()).collect();
            let o = solve::Outcome { fatal: what.into(), message: format!("{msg} schedule {sub}"), status: "none".into(), lb: -INF, ub: INF, ..Default::default() };
            solve_record(exp, shard, idx, &c, &[o])
        }
        "fr" | "frn" | "frs" => fr::fatal_record(exp, seed, shard, idx, what, msg),
        "bit" | "lex" | "mat" | "utl" => misc::fatal_record(exp, seed, shard, idx, what, msg),
        "rep" => rep::fatal_record(exp, seed, shard, idx, what, msg),
        "tmo" => tmo::fatal_record(seed, shard, idx, what, msg),
        "opt" => opt::fatal_record(shard, idx, what, msg),
        "tr" | "dom" | "ord" | "gen" | "twi" | "tig" => trace::fatal_record(exp, seed, shard, idx, what, msg),
        _ => dd::fatal_record(exp, seed, shard, idx, sub, what, msg),
    }
}
fn solve_record(exp: &str, shard: u64, idx: u64, c: &solve::Case, outs: &[solve::Outcome]) -> String {
    let o: Vec<Raw> = outs.iter().map(|o| Raw(o.js())).collect();
    let mut os = String::new();
    o.js(&mut os);
    Obj::new().f("id", &format!("{exp}-{shard}-{idx}")).raw("m", &c.model.json()).raw("cfg", &c.cfg_js()).raw("outs", &os).done()
}

fn run_case(ctx: &mut Ctx, idx: u64) {
    let mut r = rng_for(&ctx.exp, ctx.seed, ctx.shard, idx);
    if let Some((p, schedules)) = profile(&ctx.exp) {
        let mut c = solve::Case::generate(&mut r, &p);
        let opt = c.model.opt();
        let n = if c.huge { 2 } else if c.threads == 1 && c.stop == solve::Stop::Maximize { 1 } else { schedules };
        if c.huge { ctx.count("huge", 1); }
        let mut outs: Vec<solve::Outcome> = vec![];
        let mut bad = "";
        for k in 0..n {
            vary(&mut c, &mut r, k);
            CURRENT.lock().unwrap().sub = k.to_string();
            beat(idx, k as u64);
            let o = c.run();
            ctx.count("runs", 1);
            if o.explored > 1 { ctx.count("runs_multi", 1) }
            if o.explored > 20 { ctx.count("runs_over_20", 1) }
            if o.explored > 200 { ctx.count("runs_over_200", 1) }
            if o.status == "interrupted" { ctx.count("interrupted", 1) }
            if o.sched.contains("free=true") { ctx.count("freerun", 1) }
            if !c.again.is_empty() { ctx.count("second_runs", 1) }
            let o = o;
            let mut all = vec![o];
            while let Some(x) = all.last_mut().unwrap().first.take() { all.push(*x); }
            for x in all.into_iter().rev() {
                let op = x.opinion(&c, opt);
                if !op.is_empty() && bad.is_empty() { bad = op; ctx.count(&format!("bad_{op}_{}", solve::SOLVERS[c.solver]), 1); }
                if !outs.iter().any(|y| y.key() == x.key()) { outs.push(x); }
            }
        }
        ctx.count("cases", 1);
        ctx.count("outcomes", outs.len() as u64);
        if c.model.n > 100 { ctx.count("giant", 1); if bad.is_empty() { return; } }
        if ctx.wants(bad, idx) {
            let line = solve_record(&ctx.exp, ctx.shard, idx, &c, &outs);
            ctx.emit(&line);
        }
        return;
    }
    match ctx.exp.as_str() {
        "sys" => systematic(ctx, idx, &mut r),
        "fr" | "frn" | "frs" => fr::run_case(ctx, idx, &mut r),
        "bit" | "lex" | "mat" | "utl" => misc::run_case(ctx, idx, &mut r),
        "rep" => rep::run_case(ctx, idx, &mut r),
        "tmo" => tmo::run_case(ctx, idx, &mut r),
        "opt" => opt::run_case(ctx, idx, &mut r),
        "tr" | "dom" | "ord" | "gen" | "twi" | "tig" => trace::run_case(ctx, idx, &mut r),
        _ => dd::run_case(ctx, idx, &mut r),
    }
}

/// Runs every schedule of a small case with at most so many preemptions.
fn systematic(ctx: &mut Ctx, idx: u64, r: &mut Rng) {
    let mut c = solve::Case::tiny(r);
    let opt = c.model.opt();
    let deep = ctx.deep as usize;
    // at the mutex only, or at every lock
    c.sched.coarse = r.chance(70);
    let bound = if c.sched.coarse { 2 } else { 1 } + deep;
    let limit = if deep > 0 { 60_000 } else { 4_000 };
    let mut todo: Vec<Vec<(u8, u8, u8)>> = vec![vec![]];
    let mut outs: Vec<solve::Outcome> = vec![];
    let mut bad = "";
    let mut runs = 0u64;
    while let Some(script) = todo.pop() {
        if runs >= limit { break; }
        if runs % 256 == 0 { beat(idx, runs / 256); }
        c.sched.script = script.iter().map(|x| x.1).collect();
        CURRENT.lock().unwrap().sub = c.sched.script.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".");
        let o = c.run();
        runs += 1;
        let trace = solve::TRACE.lock().unwrap().clone();
        if o.sched.contains("free=true") { ctx.count("freerun", 1); }
        if trace.len() < script.len() || trace[..script.len()] != script[..] { ctx.count("diverged", 1); }
        let op = o.opinion(&c, opt);
        if !op.is_empty() && bad.is_empty() { bad = op; ctx.count(&format!("bad_{op}"), 1); }
        if !outs.iter().any(|x| x.key() == o.key()) { outs.push(o); }
        // the alternatives to the choices made after the script
        let mut spent = 0;
        for (i, (n, ch, here)) in trace.iter().enumerate() {
            if i >= c.sched.script.len() {
                for alt in 0..*n {
                    if alt == *ch || (*here != 255 && spent >= bound) { continue; }
                    let mut s = trace[..i].to_vec();
                    s.push((*n, alt, *here));
                    todo.push(s);
                }
            }
            if *here != 255 && ch != here { spent += 1; }
        }
    }
    ctx.count("cases", 1);
    ctx.count("runs", runs);
    ctx.count("outcomes", outs.len() as u64);
    ctx.count(&format!("{}_{}_{}_preemptions", if todo.is_empty() { "all_schedules" } else { "cut_short" }, if c.sched.coarse { "mutex" } else { "every_lock" }, bound), 1);
    if ctx.wants(bad, idx) {
        let line = solve_record(&ctx.exp, ctx.shard, idx, &c, &outs);
        ctx.emit(&line);
    }
}

/// Tells the parent that this process is alive: the number of the case, and a number which changes.
static PROGRESS: Mutex<Option<std::fs::File>> = Mutex::new(None);
const CASE: u64 = (1 << 40) - 1;
fn beat(idx: u64, step: u64) {
    if let Some(f) = PROGRESS.lock().unwrap().as_ref() { f.write_all_at(&(idx | (step & 0xffff) << 40).to_le_bytes(), 0).unwrap(); }
}

fn arg(args: &[String], k: &str, d: &str) -> String {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()).unwrap_or_else(|| d.to_string())
}

fn shard(args: &[String]) {
    let exp = arg(args, "--exp", "");
    let seed: u64 = arg(args, "--seed", "1").parse().unwrap();
    let sh: u64 = arg(args, "--shard", "0").parse().unwrap();
    let start: u64 = arg(args, "--start", "0").parse().unwrap();
    let budget = Duration::from_millis(arg(args, "--ms", "1000").parse().unwrap());
    let max: u64 = arg(args, "--max", "1000000000").parse().unwrap();
    let out = arg(args, "--out", "/dev/null");
    let quota: usize = arg(args, "--quota", "50").parse().unwrap();
    let prog = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(format!("{out}.prog")).unwrap();
    *PROGRESS.lock().unwrap() = Some(prog.try_clone().unwrap());
    {
        let mut c = CURRENT.lock().unwrap();
        *c = Current { exp: exp.clone(), seed, shard: sh, idx: start, sub: String::new(), out: out.clone() };
    }
    std::panic::set_hook(Box::new(|info| { if std::env::var("PANICS").is_ok() { eprintln!("{info}\n{}", std::backtrace::Backtrace::force_capture()); }
        if let Ok(mut l) = solve::LAST_PANIC.lock() { if l.is_empty() { *l = format!("{info}"); } }
    }));
    limits();
    let t0 = Instant::now();
    let mut ctx = Ctx {
        deep: arg(args, "--deep", "0").parse().unwrap(), exp, seed, shard: sh, quota, stdout: format!("{out}.stdout"), emitted: 0,
        sink: std::fs::OpenOptions::new().append(true).create(true).open(&out).unwrap(),
        counts: Default::default(),
    };
    let mut idx = start;
    while t0.elapsed() < budget && idx < max {
        beat(idx, 0);
        CURRENT.lock().unwrap().idx = idx;
        run_case(&mut ctx, idx);
        idx += 1;
    }
    prog.write_all_at(&u64::MAX.to_le_bytes(), 0).unwrap();
    let mut o = Obj::new();
    for (k, v) in ctx.counts.iter() { o = o.f(k, &(*v as i64)); }
    std::fs::OpenOptions::new().append(true).create(true).open(format!("{out}.stat")).unwrap()
        .write_all((o.done() + "\n").as_bytes()).unwrap();
}

/// Runs the shards of an experiment, restarting after the cases which kill them.
fn run(args: &[String]) {
    let exp = arg(args, "--exp", "");
    let seed: u64 = arg(args, "--seed", "1").parse().unwrap();
    let ms: u64 = arg(args, "--ms", "1000").parse().unwrap();
    let max = arg(args, "--max", "1000000000");
    let out = arg(args, "--out", "/tmp/vh-out");
    let quota = arg(args, "--quota", "50");
    let shards: u64 = arg(args, "--shards", "8").parse().unwrap();
    let only = arg(args, "--only", "");
    let deep = arg(args, "--deep", "0");
    let me = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let mut hs = vec![];
    for s in 0..shards {
        if !only.is_empty() && only != s.to_string() { continue; }
        let (exp, out, quota, me, max, deep) = (exp.clone(), format!("{out}.{s}"), quota.clone(), me.clone(), max.clone(), deep.clone());
        hs.push(std::thread::spawn(move || {
            let mut start = 0u64;
            let mut deaths = 0u64;
            for x in ["", ".prog", ".stat", ".stdout"] { let _ = std::fs::remove_file(format!("{out}{x}")); }
            loop {
                let left = ms.saturating_sub(t0.elapsed().as_millis() as u64);
                if left == 0 || deaths >= 6 { break; }
                let mut ch = std::process::Command::new(&me)
                    .args(["shard", "--exp", &exp, "--seed", &seed.to_string(), "--shard", &s.to_string(), "--start", &start.to_string(),
                        "--ms", &left.to_string(), "--out", &out, "--quota", &quota, "--max", &max, "--deep", &deep])
                    .stdout(std::fs::OpenOptions::new().append(true).create(true).open(format!("{out}.stdout")).unwrap())
                    .spawn().unwrap();
                let mut seen = (u64::MAX - 1, Instant::now());
                let status = loop {
                    if let Some(st) = ch.try_wait().unwrap() { break Some(st); }
                    let p = progress(&out);
                    if p != seen.0 { seen = (p, Instant::now()); }
                    if seen.1.elapsed() > Duration::from_secs(25) { let _ = ch.kill(); let _ = ch.wait(); break None; }
                    std::thread::sleep(Duration::from_millis(20));
                };
                let p = match progress(&out) { u64::MAX => u64::MAX, x => x & CASE };
                match status {
                    Some(st) if st.success() => break,
                    Some(st) => {
                        if st.code() != Some(77) && p != u64::MAX {
                            write_fatal(&Current { exp: exp.clone(), seed, shard: s, idx: p, sub: String::new(), out: out.clone() }, "crash", &format!("{st}"));
                        }
                    }
                    None => write_fatal(&Current { exp: exp.clone(), seed, shard: s, idx: p, sub: String::new(), out: out.clone() }, "hang", "no progress for 25 s"),
                }
                deaths += 1;
                if p == u64::MAX { break; }
                start = p + 1;
            }
            deaths
        }));
    }
    let deaths: u64 = hs.into_iter().map(|h| h.join().unwrap()).sum();
    println!("deaths {deaths}");
}
fn progress(out: &str) -> u64 {
    let mut b = [0u8; 8];
    match std::fs::File::open(format!("{out}.prog")).and_then(|f| f.read_exact_at(&mut b, 0)) { Ok(_) => u64::from_le_bytes(b), Err(_) => 0 }
}

/// prints problems, one per line, which branch enough for two threads to have something to share
fn models(args: &[String]) {
    let seed: u64 = arg(args, "--seed", "1").parse().unwrap();
    let count: usize = arg(args, "--count", "10").parse().unwrap();
    let size = arg(args, "--size", "s");
    let mut r = rng_for("models", seed, 0, 0);
    let mut k = 0;
    while k < count {
        let sh = match size.as_str() {
            "s" => model::Shape { n: (2, 3), nb: (2, 3), dom: (2, 2), cost: 2, fan: false },
            _ => model::Shape { n: (3, 4), nb: (2, 3), dom: (2, 3), cost: 3, fan: false },
        };
        let mut m = model::Model::generate(&mut r, &sh);
        m.off = 0; m.scale = 1;
        if m.opt().is_none() && !r.chance(10) { continue; }
        let width = *r.pick(&[1usize, 1, 1, 2]);
        println!("{}", util::Obj::new().raw("m", &m.json()).f("stubborn", &m.stubborn).f("w", &width)
            .f("cutset", if r.chance(50) { "lel" } else { "frontier" }).done());
        k += 1;
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args),
        Some("replay-frontier") => {
            std::panic::set_hook(Box::new(|info| { if let Ok(mut l) = solve::LAST_PANIC.lock() { if l.is_empty() { *l = format!("{info}"); } } }));
            fr::replay(&args[2], &args[3], &arg(&args, "--rank", "0,1,1,2"), arg(&args, "--values", "2").parse().unwrap(), arg(&args, "--bounds", "2").parse().unwrap(), arg(&args, "--sample", "1000").parse().unwrap())
        }
        Some("replay-util") => {
            std::panic::set_hook(Box::new(|info| { if let Ok(mut l) = solve::LAST_PANIC.lock() { if l.is_empty() { *l = format!("{info}"); } } }));
            misc::replay(&args[2], &args[3], arg(&args, "--sample", "1000").parse().unwrap())
        }
        Some("models") => models(&args),
        Some("tmo-child") => tmo::child(&args[2..]),
        Some("shard") => shard(&args),
        _ => { eprintln!("usage: vh run --exp E --seed S --ms T --out PREFIX"); std::process::exit(2) }
    }
}

#[cfg(not(feature = "sched"))]
pub fn unused() {}
extern "C" { fn _exit(code: i32) -> !; fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32; }
/// No case needs much memory, or prints much: code which goes astray ends here instead of taking the machine down.
fn limits() {
    unsafe {
        setrlimit(2, &[3 << 30, 3 << 30]); // RLIMIT_DATA
        setrlimit(1, &[2 << 30, 2 << 30]); // RLIMIT_FSIZE
    }
}
