//! The utilities: bitset iteration, bitset order, matrices.
use crate::util::*;
use crate::Ctx;
use bitset_fixed::BitSet;
use engineering::*;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn capacity(r: &mut Rng) -> usize {
    match r.below(4) { 0 => r.below(12), 1 => *r.pick(&[0, 1, 2, 63, 64, 65, 127, 128, 129, 191, 192, 193, 256, 320]), 2 => r.below(140), _ => r.below(400) }
}
fn members(r: &mut Rng, cap: usize) -> Vec<usize> {
    let dens = *r.pick(&[0, 2, 10, 50, 90, 100]);
    let mut v: Vec<usize> = (0..cap).filter(|_| r.chance(dens)).collect();
    if r.chance(40) { for k in [0usize, 31, 32, 62, 63, 64, 65, 126, 127, 128, 191, 192, 255, 256] { if k < cap && r.chance(40) && !v.contains(&k) { v.push(k); } } }
    if cap > 0 && r.chance(30) && !v.contains(&(cap - 1)) { v.push(cap - 1); }
    v.sort();
    v
}
fn bitset(cap: usize, v: &[usize]) -> BitSet { let mut b = BitSet::new(cap); for x in v { b.set(*x, true); } b }

fn ord(o: Ordering) -> i64 { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }

fn guarded(fatal: &Option<String>, f: &mut dyn FnMut()) -> String {
    if let Some(x) = fatal { return x.clone(); }
    match catch_unwind(AssertUnwindSafe(f)) { Ok(_) => String::new(), Err(_) => { let mut l = crate::solve::LAST_PANIC.lock().unwrap(); let m = l.clone(); l.clear(); format!("panic: {m}") } }
}

/// the record (if wanted or bad) and whether the harness finds it suspicious
fn bit_case(id: &str, cap: usize, v: &[usize], want: bool, fatal: &Option<String>) -> (String, bool) {
    let b = bitset(cap, v);
    let mut out: Vec<usize> = vec![];
    let mut tail = 0usize;
    let fatal = guarded(fatal, &mut || {
        let mut it = BitSetIter::new(&b);
        while let Some(x) = it.next() { out.push(x); if out.len() > cap + 3 { break; } }
        for _ in 0..4 { if it.next().is_some() { tail += 1; } }
    });
    let bad = !fatal.is_empty() || out != v || tail > 0;
    if !bad && !want { return (String::new(), bad); }
    (Obj::new().f("id", id).f("what", "bit").f("cap", &cap).f("set", &v.to_vec()).f("out", &out).f("tail", &tail).f("fatal", &fatal).done(), bad)
}

fn lex_case(id: &str, caps: &[usize], sets: &[Vec<usize>], want: bool, fatal: &Option<String>) -> (String, bool) {
    let bs: Vec<BitSet> = (0..3).map(|i| bitset(caps[i], &sets[i])).collect();
    let mut rel: Vec<Vec<Vec<i64>>> = vec![];
    let fatal = guarded(fatal, &mut || {
        rel.clear();
        for i in 0..3 {
            let mut row = vec![];
            for j in 0..3 {
                let (a, b) = (LexBitSet(&bs[i]), LexBitSet(&bs[j]));
                row.push(vec![ord(a.cmp(&b)), a.partial_cmp(&b).map_or(9, ord), (a == b) as i64, (a != b) as i64, (a < b) as i64, (a <= b) as i64, (a > b) as i64, (a >= b) as i64]);
            }
            rel.push(row);
        }
    });
    let mut bad = !fatal.is_empty();
    if !bad { for i in 0..3 { for j in 0..3 {
        let d = sets[i].iter().filter(|k| !sets[j].contains(k)).chain(sets[j].iter().filter(|k| !sets[i].contains(k))).min();
        let e = d.map_or(0, |k| if sets[j].contains(k) { -1 } else { 1 });
        if rel[i][j] != vec![e, e, (e == 0) as i64, (e != 0) as i64, (e < 0) as i64, (e <= 0) as i64, (e > 0) as i64, (e >= 0) as i64] { bad = true; }
    } } }
    if !bad && !want { return (String::new(), bad); }
    (Obj::new().f("id", id).f("what", "lex").f("caps", &caps.to_vec()).f("sets", &sets.to_vec()).f("rel", &rel).f("fatal", &fatal).done(), bad)
}

/// item: the matrix is made with that content (or with the default one); swap: through a copy made in the middle
fn mat_case(id: &str, n: usize, m: usize, item: Option<i64>, ops: &[(bool, usize, usize, i64)], copy: Option<usize>, want: bool, fatal: &Option<String>) -> (String, bool) {
    let mut res: Vec<Vec<i64>> = vec![];
    let mut fin: Vec<Vec<i64>> = vec![];
    let mut size = (0, 0, 0);
    let fatal = guarded(fatal, &mut || {
        let mut a: Matrix<i64> = match item { Some(x) => Matrix::new_default(m, n, x), None => Matrix::new(m, n) };
        size = (a.data.len(), a.n, a.m);
        res.clear();
        fin.clear();
        for (k, (w, i, j, v)) in ops.iter().enumerate() {
            if copy == Some(k) {
                // the copy takes over, and the original must not matter to it any more
                let b = a.clone();
                for x in a.data.iter_mut() { *x = -77; }
                a = b;
            }
            if *w { a[(*i, *j)] = *v; res.push(vec![1, *i as i64, *j as i64, *v]); } else { let x = a[(*i, *j)]; res.push(vec![0, *i as i64, *j as i64, x]); }
        }
        for i in 0..n { fin.push((0..m).map(|j| a[(i, j)]).collect()); }
    });
    let item = item.unwrap_or(0);
    let mut cells = vec![vec![item; m]; n];
    let mut bad = !fatal.is_empty() || size != (n * m, n, m);
    for x in res.iter() { if x[0] == 1 { cells[x[1] as usize][x[2] as usize] = x[3]; } else if cells[x[1] as usize][x[2] as usize] != x[3] { bad = true; } }
    if cells != fin { bad = true; }
    if !bad && !want { return (String::new(), bad); }
    (Obj::new().f("id", id).f("what", "mat").f("rows", &n).f("cols", &m).f("item", &item).f("size", &vec![size.0, size.1, size.2]).f("ops", &res).f("fin", &fin).f("fatal", &fatal).done(), bad)
}

/// the record, whether the harness finds it suspicious, and whether it is not trivial
fn run(exp: &str, id: &str, r: &mut Rng, fatal: Option<String>) -> (String, bool, bool) {
    let exp = if exp == "utl" { *r.pick(&["bit", "lex", "mat"]) } else { exp };
    match exp {
        "bit" => {
            let cap = capacity(r);
            let v = members(r, cap);
            let (l, bad) = bit_case(id, cap, &v, true, &fatal);
            (l, bad, !v.is_empty())
        }
        "lex" => {
            let cap0 = capacity(r);
            let base = members(r, cap0);
            let mut caps = vec![];
            let mut sets: Vec<Vec<usize>> = vec![];
            for _ in 0..3 {
                let cap = match r.below(4) { 0 => capacity(r), _ => cap0 };
                let mut v: Vec<usize> = if r.chance(75) { base.iter().copied().filter(|x| *x < cap).collect() } else { members(r, cap) };
                if cap > 0 { for _ in 0..r.below(3) { let k = r.below(cap); if let Some(i) = v.iter().position(|x| *x == k) { v.remove(i); } else { v.push(k); } } }
                v.sort();
                caps.push(cap);
                sets.push(v);
            }
            let (l, bad) = lex_case(id, &caps, &sets, true, &fatal);
            (l, bad, true)
        }
        _ => {
            let (n, m) = match r.below(10) { 0..=3 => (r.range(0, 4) as usize, r.range(0, 4) as usize), 4..=8 => (r.range(1, 9) as usize, r.range(1, 9) as usize), _ => (r.range(1, 40) as usize, r.range(1, 40) as usize) };
            let item = if r.chance(50) { Some(r.range(-9, 9)) } else { None };
            let k = if n * m == 0 { 0 } else if r.chance(10) { r.below(60) } else { r.below(14) };
            let ops: Vec<(bool, usize, usize, i64)> = (0..k).map(|i| (r.chance(60), r.below(n), r.below(m), 100 + i as i64)).collect();
            let copy = if k > 0 && r.chance(30) { Some(r.below(k)) } else { None };
            let (l, bad) = mat_case(id, n, m, item, &ops, copy, true, &fatal);
            (l, bad, n * m > 1)
        }
    }
}

/// Behaviours printed by TLC, each mapped onto real words in many ways.  A line is
/// `bit|lex words;words` (words of digits, separated by commas) or `mat rows cols i,j,v ...`.
pub fn replay(path: &str, out: &str, sample: u64) {
    use std::io::Write;
    let text = std::fs::read_to_string(path).unwrap();
    let lines: Vec<&str> = text.lines().collect();
    let picks = [0usize, 1, 2, 15, 31, 32, 33, 62, 63];
    let mut maps = vec![];
    for i in 0..picks.len() { for j in i + 1..picks.len() { for k in j + 1..picks.len() { maps.push([picks[i], picks[j], picks[k]]); } } }
    let words = |t: &str| -> Vec<Vec<usize>> { if t == "-" { vec![] } else { t.split(',').map(|w| w.bytes().map(|b| (b - b'0') as usize).collect()).collect() } };
    let spread = |w: &Vec<Vec<usize>>, map: &[usize; 3]| -> Vec<usize> {
        let mut v: Vec<usize> = w.iter().enumerate().flat_map(|(k, x)| x.iter().map(move |b| 64 * k + map[*b])).collect();
        v.sort();
        v
    };
    // as few words as the specification has, cut off after the last possible member or not
    let cap = |w: &Vec<Vec<usize>>, map: &[usize; 3], short: bool| if w.is_empty() { 0 } else if short { 64 * (w.len() - 1) + map[2] + 1 } else { 64 * w.len() };
    let w = std::sync::Mutex::new((std::io::BufWriter::new(std::fs::File::create(out).unwrap()), 0u64, 0u64));
    std::thread::scope(|sc| for t in 0..8 {
        let (lines, maps, w) = (&lines, &maps, &w);
        sc.spawn(move || {
            let mut total = 0u64;
            for (i, line) in lines.iter().enumerate().skip(t).step_by(8) {
                let f: Vec<&str> = line.split(' ').collect();
                let count = if f[0] == "mat" { 4 } else { 2 * maps.len() };
                for k in 0..count {
                    let want = (i as u64 * 31 + k as u64 * 7) % sample == 0;
                    let id = format!("spec-{i}-{k}");
                    let (l, bad) = if f[0] == "mat" {
                        let (rows, cols): (usize, usize) = (f[1].parse().unwrap(), f[2].parse().unwrap());
                        let mut ops: Vec<(bool, usize, usize, i64)> = f[3..].iter().filter(|x| !x.is_empty()).map(|x| { let y: Vec<i64> = x.split(',').map(|z| z.parse().unwrap()).collect(); (true, y[0] as usize, y[1] as usize, y[2]) }).collect();
                        // every cell is read at the end, and (in two of the cases) half-way through
                        let all: Vec<(bool, usize, usize, i64)> = (0..rows).flat_map(|a| (0..cols).map(move |b| (false, a, b, 0))).collect();
                        if k >= 2 { let h = ops.len() / 2; for x in all.iter().rev() { ops.insert(h, *x); } }
                        let copy = if k == 3 && !ops.is_empty() { Some(ops.len() - 1) } else { None };
                        mat_case(&id, rows, cols, if k % 2 == 1 { Some(0) } else { None }, &ops, copy, want, &None)
                    } else {
                        let s: Vec<Vec<Vec<usize>>> = f[1].split(';').map(words).collect();
                        let map = &maps[k / 2];
                        let short = k % 2 == 1;
                        if f[0] == "bit" { bit_case(&id, cap(&s[0], map, short), &spread(&s[0], map), want, &None) }
                        else {
                            let (a, b) = (spread(&s[0], map), spread(&s[1], map));
                            lex_case(&id, &[cap(&s[0], map, short), cap(&s[1], map, short), cap(&s[0], map, !short)], &[a.clone(), b, a], want, &None)
                        }
                    };
                    total += 1;
                    if bad { let mut x = w.lock().unwrap(); x.1 += 1; if x.1 <= 20 { writeln!(x.0, "{l}").unwrap(); } }
                    else if want { writeln!(w.lock().unwrap().0, "{l}").unwrap(); }
                }
            }
            w.lock().unwrap().2 += total;
        });
    });
    let g = w.lock().unwrap();
    println!("{{\"replayed\": {}, \"suspicious\": {}}}", g.2, g.1);
}
pub fn fatal_record(exp: &str, seed: u64, shard: u64, idx: u64, what: &str, msg: &str) -> String {
    let mut r = crate::rng_for(exp, seed, shard, idx);
    run(exp, &format!("{exp}-{shard}-{idx}"), &mut r, Some(format!("{what}: {msg}"))).0
}
pub fn run_case(ctx: &mut Ctx, idx: u64, r: &mut Rng) {
    let (line, bad, fine) = run(&ctx.exp, &format!("{}-{}-{}", ctx.exp, ctx.shard, idx), r, None);
    ctx.count("cases", 1);
    if fine { ctx.count("nontrivial", 1); }
    if bad { ctx.count("bad", 1); }
    if ctx.wants(if bad { "bad" } else { "" }, idx) { ctx.emit(&line); }
}
