//! The time-out helper: it ends the process, so every case is a process of its own.
use crate::util::*;
use crate::Ctx;
use std::io::{Read, Write};
use std::time::{Duration, Instant};

/// vh tmo-child AFTER ACTION LAST (milliseconds)
pub fn child(args: &[String]) -> ! {
    let n: Vec<u64> = args[..3].iter().map(|x| x.parse().unwrap()).collect();
    let t0 = Instant::now();
    let say = move |what: &str| {
        let line = format!("{what} {}\n", t0.elapsed().as_millis());
        let mut o = std::io::stdout();
        let _ = o.write_all(line.as_bytes());
        let _ = o.flush();
    };
    let (action, last) = (Duration::from_millis(n[1]), Duration::from_millis(n[2]));
    engineering::xputils::timeout(
        Duration::from_millis(n[0]),
        move || { say("start"); std::thread::sleep(action); say("acted") },
        move || { say("begun"); std::thread::sleep(last); say("done") },
    );
    #[allow(unreachable_code)]
    { say("returned"); std::process::exit(5) }
}
pub fn generate(r: &mut Rng) -> (u64, u64, u64) {
    let after = *r.pick(&[1u64, 3, 5, 10, 20, 30]);
    let last = *r.pick(&[0u64, 0, 1, 5, 15, 40]);
    let action = match r.below(8) {
        0 => 0,
        1 => after,
        2 => after.saturating_sub(1),
        3 => after + 1,
        4 => after + last / 2,
        5 => after + r.below(last as usize + 3) as u64,
        6 => if r.chance(10) { 25_000 } else { after + last },
        _ => r.below(45) as u64,
    };
    // the action is over long before the time
    if r.chance(15) { (60_000, action.min(40), last) } else { (after, action, last) }
}
fn record(id: &str, k: (u64, u64, u64), fatal: &str, code: i64, evs: &[String], at0: u64) -> String {
    Obj::new().f("id", id).f("after", &k.0).f("action", &k.1).f("last", &k.2).f("fatal", fatal).f("code", &code).f("evs", &evs.to_vec()).f("at0", &at0).done()
}
pub fn run_case(ctx: &mut Ctx, idx: u64, r: &mut Rng) {
    let k = generate(r);
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["tmo-child", &k.0.to_string(), &k.1.to_string(), &k.2.to_string()])
        .stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
    let t0 = Instant::now();
    let mut hung = false;
    let code = loop {
        match ch.try_wait().unwrap() {
            Some(s) => break s.code().unwrap_or(-1) as i64,
            None if t0.elapsed() > Duration::from_secs(45) => { hung = true; let _ = ch.kill(); let _ = ch.wait(); break -1 }
            None => { std::thread::sleep(Duration::from_micros(300)); crate::beat(idx, t0.elapsed().as_secs()) }
        }
    };
    let mut out = String::new();
    ch.stdout.take().unwrap().read_to_string(&mut out).unwrap();
    let mut evs = vec![];
    let mut at0 = 0;
    for l in out.lines() {
        let mut w = l.split(' ');
        let e = w.next().unwrap_or("").to_string();
        let t: u64 = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        if e == "begun" { at0 = t }
        evs.push(e);
    }
    let n = |e: &str| evs.iter().filter(|x| *x == e).count();
    let ok = (code == 0 && n("acted") == 1 && n("begun") == 0 && n("done") == 0) || (code == 1 && n("begun") == 1 && n("done") == 1 && at0 >= k.0);
    let bad = if hung { "hang" } else if !ok { "end" } else { "" };
    ctx.count("cases", 1);
    ctx.count(&format!("status_{code}"), 1);
    if n("acted") == 1 && code == 1 { ctx.count("both", 1); }
    if !bad.is_empty() { ctx.count(&format!("bad_{bad}"), 1); }
    if ctx.wants(bad, idx) {
        let line = record(&format!("tmo-{}-{}", ctx.shard, idx), k, if hung { "the process never ends" } else { "" }, code, &evs, at0);
        ctx.emit(&line);
    }
}
pub fn fatal_record(seed: u64, shard: u64, idx: u64, what: &str, msg: &str) -> String {
    let mut r = crate::rng_for("tmo", seed, shard, idx);
    record(&format!("tmo-{shard}-{idx}"), generate(&mut r), &format!("{what}: {msg}"), -1, &[], 0)
}
