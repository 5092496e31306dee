//! Small helpers: a deterministic generator and a JSON writer.
use std::fmt::Write;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(parts: &[u64]) -> Rng {
        let mut h = 0x243F6A8885A308D3u64;
        for p in parts {
            h ^= p.wrapping_mul(0x9E3779B97F4A7C15);
            h = (h ^ (h >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
            h ^= h >> 32;
        }
        Rng(h)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n.max(1) as u64)) as usize }
    /// inclusive
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.next() % ((hi - lo + 1) as u64)) as i64 }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
}

pub trait Js { fn js(&self, out: &mut String); }
impl Js for i64 { fn js(&self, o: &mut String) { let _ = write!(o, "{}", self); } }
impl Js for usize { fn js(&self, o: &mut String) { let _ = write!(o, "{}", self); } }
impl Js for bool { fn js(&self, o: &mut String) { o.push_str(if *self { "true" } else { "false" }); } }
impl Js for u64 { fn js(&self, o: &mut String) { let _ = write!(o, "{}", self); } }
impl Js for str {
    fn js(&self, o: &mut String) {
        o.push('"');
        for c in self.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 32 || (c as u32) > 126 => o.push(' '),
                c => o.push(c),
            }
        }
        o.push('"');
    }
}
impl Js for String { fn js(&self, o: &mut String) { self.as_str().js(o) } }
impl Js for &str { fn js(&self, o: &mut String) { (**self).js(o) } }
impl<T: Js> Js for Vec<T> { fn js(&self, o: &mut String) { self.as_slice().js(o) } }
impl<T: Js> Js for [T] {
    fn js(&self, o: &mut String) {
        o.push('[');
        for (i, x) in self.iter().enumerate() { if i > 0 { o.push(',') } x.js(o) }
        o.push(']');
    }
}
impl<A: Js, B: Js> Js for (A, B) {
    fn js(&self, o: &mut String) { o.push('['); self.0.js(o); o.push(','); self.1.js(o); o.push(']'); }
}
impl<A: Js, B: Js, C: Js> Js for (A, B, C) {
    fn js(&self, o: &mut String) { o.push('['); self.0.js(o); o.push(','); self.1.js(o); o.push(','); self.2.js(o); o.push(']'); }
}
/// An object under construction.
pub struct Obj { s: String }
impl Obj {
    pub fn new() -> Obj { Obj { s: String::from("{") } }
    pub fn f<T: Js + ?Sized>(mut self, k: &str, v: &T) -> Obj {
        if self.s.len() > 1 { self.s.push(',') }
        k.js(&mut self.s);
        self.s.push(':');
        v.js(&mut self.s);
        self
    }
    pub fn raw(mut self, k: &str, v: &str) -> Obj {
        if self.s.len() > 1 { self.s.push(',') }
        k.js(&mut self.s);
        self.s.push(':');
        self.s.push_str(v);
        self
    }
    pub fn done(mut self) -> String { self.s.push('}'); self.s }
}
pub struct Raw(pub String);
impl Js for Raw { fn js(&self, o: &mut String) { o.push_str(&self.0) } }

pub const INF: i64 = 1_000_000_000;
pub const WEIRD: i64 = 999_999_937;
