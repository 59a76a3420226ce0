//! Codes, fixed-width integers, bit buffers.
use crate::common::*;
use crate::fw::*;
use crate::disp;
use succinct::bit_vec::*;
use succinct::coding::*;
use succinct::stream::*;
use std::collections::VecDeque;
use std::io::{Error, ErrorKind, Result};

/// A source over given bits that can fail at a point, and records misuse.
pub struct Src { pub bits: Vec<bool>, pub pos: usize, pub fail_at: Option<usize>, pub ended: bool, pub after_end: usize }
impl Src { pub fn new(b: &[bool], fail_at: Option<usize>) -> Src { Src { bits: b.to_vec(), pos: 0, fail_at, ended: false, after_end: 0 } } }
impl BitRead for Src {
    fn read_bit(&mut self) -> Result<Option<bool>> {
        if self.ended { self.after_end += 1; }
        if self.fail_at == Some(self.pos) { self.ended = true; return Err(Error::new(ErrorKind::PermissionDenied, "vx-source-error")); }
        if self.pos < self.bits.len() { self.pos += 1; Ok(Some(self.bits[self.pos - 1])) } else { self.ended = true; Ok(None) }
    }
}
struct Sink(Vec<bool>);
impl BitWrite for Sink { fn write_bit(&mut self, b: bool) -> Result<()> { self.0.push(b); Ok(()) } }

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Ref { Val(u128, bool), Bad, Short, Clean } // Val(v, canonical)

/// Reference decoders written from the definitions; returns the outcome and the bits consumed.
type RefDec = fn(&[bool], u8) -> (Ref, usize);
fn rd_unary(b: &[bool], _: u8) -> (Ref, usize) { match b.iter().position(|x| *x) { Some(i) => (Ref::Val(i as u128, true), i + 1), None => (if b.is_empty() { Ref::Clean } else { Ref::Short }, b.len()) } }
fn le(b: &[bool]) -> u128 { let mut v = 0; for (i, x) in b.iter().enumerate() { if *x { v |= 1u128 << i; } } v }
fn be(b: &[bool]) -> u128 { let mut v = 0; for x in b { v = v << 1 | *x as u128; } v }
fn elias(h: (Ref, usize), b: &[bool]) -> (Ref, usize) {
    match h { (Ref::Val(n, c), k) => { if n > 63 { return (Ref::Bad, k); } let n = n as usize; if b.len() - k < n { return (Ref::Short, b.len()); } (Ref::Val(le(&b[k..k + n]) | 1 << n, c), k + n) } o => o }
}
fn lift(h: (Ref, usize)) -> (Ref, usize) { match h { (Ref::Val(0, _), k) => (Ref::Bad, k), (Ref::Val(v, c), k) => (Ref::Val(v - 1, c), k), o => o } }
fn rd_gamma(b: &[bool], p: u8) -> (Ref, usize) { elias(rd_unary(b, p), b) }
fn rd_delta(b: &[bool], p: u8) -> (Ref, usize) { elias(lift(rd_gamma(b, p)), b) }
fn rd_omega(b: &[bool], _: u8) -> (Ref, usize) {
    let mut v: u128 = 1; let mut k = 0;
    loop {
        if k >= b.len() { return (if b.is_empty() { Ref::Clean } else { Ref::Short }, b.len()); }
        if !b[k] { return (Ref::Val(v, true), k + 1); }
        if v > 63 { return (Ref::Bad, k + 1); }
        if b.len() - k < v as usize + 1 { return (Ref::Short, b.len()); }
        let w = v as usize + 1; v = be(&b[k..k + w]); k += w;
    }
}
pub const FIBMAX: u64 = 12200160415121876738;
fn rd_fib(b: &[bool], _: u8) -> (Ref, usize) {
    let (mut f1, mut f) = (1u128, 1u128); let mut v: u128 = 0; let mut prev = false;
    for (i, x) in b.iter().enumerate() {
        if *x && prev { return (if v > u64::MAX as u128 { Ref::Bad } else { Ref::Val(v, true) }, i + 1); }
        if *x { v = v.saturating_add(f); }
        let n = f1.saturating_add(f); f1 = f; f = n; prev = *x;
    }
    (if b.is_empty() { Ref::Clean } else { Ref::Short }, b.len())
}
fn rd_comma(b: &[bool], n: u8) -> (Ref, usize) {
    let n = n as usize; let base = (1u128 << n) - 1; let mut k = 0; let mut v: u128 = 0; let mut canon = true;
    loop {
        if b.len() - k < n { return (if b.is_empty() { Ref::Clean } else { Ref::Short }, b.len()); }
        let d = le(&b[k..k + n]); k += n;
        if d == base { return (if v > u64::MAX as u128 { Ref::Bad } else { Ref::Val(v, canon) }, k); }
        if v == 0 && d == 0 { canon = false; }
        v = v.saturating_mul(base).saturating_add(d).min(1 << 120);
    }
}
fn rd_lgamma(b: &[bool], p: u8) -> (Ref, usize) { lift(rd_gamma(b, p)) }
fn rd_ldelta(b: &[bool], p: u8) -> (Ref, usize) { lift(rd_delta(b, p)) }
fn rd_lomega(b: &[bool], p: u8) -> (Ref, usize) { lift(rd_omega(b, p)) }
fn rd_lfib(b: &[bool], p: u8) -> (Ref, usize) { lift(rd_fib(b, p)) }
fn rd_lunary(b: &[bool], p: u8) -> (Ref, usize) { lift(rd_unary(b, p)) }
fn rd_lcomma(b: &[bool], p: u8) -> (Ref, usize) { lift(rd_comma(b, p)) }
fn rd_llgamma(b: &[bool], p: u8) -> (Ref, usize) { lift(lift(rd_gamma(b, p))) }
fn rd_ecomma(b: &[bool], p: u8) -> (Ref, usize) { elias(rd_comma(b, p), b) }
fn rd_eldelta(b: &[bool], p: u8) -> (Ref, usize) { elias(lift(rd_delta(b, p)), b) }
fn rd_elomega(b: &[bool], p: u8) -> (Ref, usize) { elias(lift(rd_omega(b, p)), b) }

/// An object-safe view of one code.
pub trait Code { fn enc(&self, s: &mut dyn BitW, v: u64) -> Result<()>; fn dec(&self, s: &mut dyn BitR) -> Result<Option<u64>>; }
pub trait BitW { fn w(&mut self, b: bool) -> Result<()>; }
pub trait BitR { fn r(&mut self) -> Result<Option<bool>>; }
impl<X: BitWrite> BitW for X { fn w(&mut self, b: bool) -> Result<()> { self.write_bit(b) } }
impl<X: BitRead> BitR for X { fn r(&mut self) -> Result<Option<bool>> { self.read_bit() } }
struct Wd<'a>(&'a mut dyn BitW); struct Rd<'a>(&'a mut dyn BitR);
impl<'a> BitWrite for Wd<'a> { fn write_bit(&mut self, b: bool) -> Result<()> { self.0.w(b) } }
impl<'a> BitRead for Rd<'a> { fn read_bit(&mut self) -> Result<Option<bool>> { self.0.r() } }
impl<C: UniversalCode> Code for C {
    fn enc(&self, s: &mut dyn BitW, v: u64) -> Result<()> { self.encode(&mut Wd(s), v) }
    fn dec(&self, s: &mut dyn BitR) -> Result<Option<u64>> { self.decode(&mut Rd(s)) }
}
pub const NCODE: u64 = 16;
/// (name, code, reference decoder, smallest value, largest value, property, bits per unit bound for values)
pub fn code(id: u64, param: u64) -> (&'static str, Box<dyn Code>, RefDec, u64, u64, &'static [&'static str], u8) {
    let n = 2 + (param % 62) as u8;
    const E: &[&str] = &["C11"]; const O: &[&str] = &["C12"]; const F: &[&str] = &["C13"]; const K: &[&str] = &["C14"];
    const OE: &[&str] = &["C11", "C12"]; const FE: &[&str] = &["C11", "C13"]; const KE: &[&str] = &["C11", "C14"];
    let m = u64::MAX;
    match id % NCODE {
        0 => ("Unary", Box::new(Unary), rd_unary, 0, 5000, E, 0),
        1 => ("GAMMA", Box::new(GAMMA), rd_gamma, 1, m, E, 0),
        2 => ("DELTA", Box::new(DELTA), rd_delta, 1, m, E, 0),
        3 => ("Lift0(GAMMA)", Box::new(Lift0(GAMMA)), rd_lgamma, 0, m - 1, E, 0),
        4 => ("Lift0(DELTA)", Box::new(Lift0(DELTA)), rd_ldelta, 0, m - 1, E, 0),
        5 => ("Omega", Box::new(Omega), rd_omega, 1, m, O, 0),
        6 => ("Fibonacci", Box::new(Fibonacci), rd_fib, 1, FIBMAX - 1, F, 0),
        7 | 8 => ("Comma(n)", Box::new(Comma(n)), rd_comma, 0, m, K, n),
        9 => ("Lift0(Omega)", Box::new(Lift0(Omega)), rd_lomega, 0, m - 1, OE, 0),
        10 => ("Lift0(Fibonacci)", Box::new(Lift0(Fibonacci)), rd_lfib, 0, FIBMAX - 2, FE, 0),
        11 => ("Lift0(Unary)", Box::new(Lift0(Unary)), rd_lunary, 0, 3000, E, 0),
        12 => ("Lift0(Comma(n))", Box::new(Lift0(Comma(n))), rd_lcomma, 0, m - 1, KE, n),
        13 => ("Lift0(Lift0(GAMMA))", Box::new(Lift0(Lift0(GAMMA))), rd_llgamma, 0, m - 2, E, 0),
        14 => ("Elias(Comma(n))", Box::new(Elias(Comma(n))), rd_ecomma, 1, m, KE, n),
        15 if param & 1 == 0 => ("Elias(Lift0(DELTA))", Box::new(Elias(Lift0(DELTA))), rd_eldelta, 1, m, E, 0),
        _ => ("Elias(Lift0(Omega))", Box::new(Elias(Lift0(Omega))), rd_elomega, 1, m, OE, 0),
    }
}
pub fn fibs() -> Vec<u64> { let (mut a, mut b) = (1u64, 1u64); let mut v = vec![1]; while let Some(c) = a.checked_add(b) { v.push(c); a = b; b = c; } v }
/// few digits in the given base, or all the same
fn digits(r: &mut Rng, base: u64) -> u64 {
    let mut ps = vec![1u64]; while let Some(p) = ps[ps.len() - 1].checked_mul(base) { ps.push(p); }
    let mut v = 0u64;
    match r.below(3) {
        0 => for _ in 0..1 + r.below(2) { let d = match r.below(3) { 0 => 1, 1 => base - 1, _ => 1 + r.below(base - 1) }; v = v.wrapping_add(d.wrapping_mul(ps[r.below(ps.len() as u64) as usize])); },
        1 => { let d = match r.below(3) { 0 => 1, 1 => base - 1, _ => r.below(base) }; for p in &ps[..r.below(ps.len() as u64 + 1) as usize] { v = v.wrapping_add(d.wrapping_mul(*p)); } }
        _ => for p in &ps[..r.below(ps.len() as u64 + 1) as usize] { let d = match r.below(4) { 0 | 1 => 0, 2 => base - 1, _ => r.below(base) }; v = v.wrapping_add(d.wrapping_mul(*p)); },
    }
    v.wrapping_add(match r.below(4) { 0 => 1, 1 => u64::MAX, _ => 0 })
}
pub fn values(r: &mut Rng, lo: u64, hi: u64, n: u8, k: usize) -> Vec<u64> {
    let mut v = Vec::new();
    let fib = fibs();
    while v.len() < k {
        let x = match r.below(13) {
            9 => r.word(), 10 => r.word() >> r.below(64),
            11 | 12 => digits(r, if n >= 2 { (1u64 << n) - 1 } else { 3 }),
            0 => r.below(20), 1 => r.next() >> r.below(64), 2 => (1u64 << r.below(64)).wrapping_add(r.below(3)).wrapping_sub(1), 3 => fib[r.below(fib.len() as u64) as usize].wrapping_add(r.below(5)).wrapping_sub(2),
            4 => hi - r.below(5).min(hi - lo), 5 => lo + r.below(5), 6 => { let i = r.below(fib.len() as u64) as usize; let j = r.below(fib.len() as u64) as usize; fib[i].wrapping_add(fib[j]) } 7 => r.below(5000), _ => r.next() };
        let x = if hi - lo < 10_000 { lo + x % (hi - lo + 1) } else { x };
        if x >= lo && x <= hi { v.push(x); }
    }
    v
}
fn desc(r: &Result<Option<u64>>) -> String { match r { Ok(v) => format!("Ok({:?})", v), Err(e) => format!("Err({:?}: {})", e.kind(), e) } }

// ---------------------------------------------------------------- long unary codes
struct Count { zeros: u64, ones: u64, mixed: bool }
impl BitWrite for Count { fn write_bit(&mut self, b: bool) -> Result<()> { if b { self.ones += 1; } else { if self.ones > 0 { self.mixed = true; } self.zeros += 1; } Ok(()) } }
/// `zeros` zeroes, then `ones` ones, then the end or an error
struct Run { zeros: u64, ones: u64, fail: bool, used: u64, ended: bool, after: usize }
impl BitRead for Run { fn read_bit(&mut self) -> Result<Option<bool>> {
    if self.ended { self.after += 1; }
    if self.zeros > 0 { self.zeros -= 1; self.used += 1; return Ok(Some(false)); }
    if self.ones > 0 { self.ones -= 1; self.used += 1; return Ok(Some(true)); }
    self.ended = true; if self.fail { Err(Error::new(ErrorKind::PermissionDenied, "vx-source-error")) } else { Ok(None) } } }
fn ulong_c<C: UniversalCode>(t: &T, c: C, name: &str, v: u64, off: u64) {
    const E: &[&str] = &["C11"]; const D: &[&str] = &["C11", "C15"]; const X: &[&str] = &["C15"];
    t.lib(E); trace(|| format!("{} encode {}", name, v));
    let mut s = Count { zeros: 0, ones: 0, mixed: false }; let e = c.encode(&mut s, v);
    t.check(E, e.is_ok() && s.zeros == v + off && s.ones == 1 && !s.mixed, || format!("{}: {} was encoded as {} zeroes and {} ones{}", name, v, s.zeros, s.ones, if s.mixed { ", mixed" } else { "" }));
    t.lib(D); trace(|| format!("{} decode {} zeroes and a one", name, v + off));
    let mut r = Run { zeros: v + off, ones: 3, fail: false, used: 0, ended: false, after: 0 };
    let g = c.decode(&mut r);
    t.check(D, matches!(g, Ok(Some(x)) if x == v) && r.used == v + off + 1, || format!("{}: {} zeroes and a one decode to {} using {} bits", name, v + off, desc(&g), r.used));
    t.lib(X);
    let mut r = Run { zeros: v + off, ones: 0, fail: false, used: 0, ended: false, after: 0 };
    let g = c.decode(&mut r);
    t.check(X, matches!(&g, Err(e) if e.kind() != ErrorKind::PermissionDenied) && r.used == v + off && r.after == 0, || format!("{}: {} zeroes and then the end gave {} using {} bits", name, v + off, desc(&g), r.used));
    let mut r = Run { zeros: v + off, ones: 0, fail: true, used: 0, ended: false, after: 0 };
    let g = c.decode(&mut r);
    t.check(X, matches!(&g, Err(e) if e.kind() == ErrorKind::PermissionDenied) && r.used == v + off && r.after == 0, || format!("{}: {} zeroes and then a failing source gave {} using {} bits", name, v + off, desc(&g), r.used));
    if v < 1 << 18 {
        t.lib(E); let mut vd: VecDeque<bool> = VecDeque::new(); let mut b: BitBuffer<BitVector<u32>> = BitBuffer::new();
        let ok = c.encode(&mut vd, v).is_ok() && c.encode(&mut b, v).is_ok() && vd.len() as u64 == v + off + 1 && b.bit_len() == v + off + 1;
        let _ = b.seek(0); let (x, y) = (c.decode(&mut vd), c.decode(&mut b));
        t.check(E, ok && matches!(x, Ok(Some(x)) if x == v) && matches!(y, Ok(Some(y)) if y == v) && vd.is_empty() && b.position() == b.bit_len(), || format!("{}: {} through a VecDeque reads {}, through a BitBuffer {}", name, v, desc(&x), desc(&y)));
    }
    t.lib(&[]);
}
fn ulong(t: &T, id: u64, v: u64) {
    if v > if cfg!(debug_assertions) { 1 << 18 } else { 1 << 23 } { return; }
    if id == 0 { ulong_c(t, Unary, "Unary", v, 0) } else { ulong_c(t, Lift0(Unary), "Lift0(Unary)", v, 1) }
}

/// round trip of a list of values, with junk after it
pub fn codert(t: &T, p: &[u64]) {
    if (p[0] == 0 || p[0] == 11) && p.len() > 3 && p[3] > 5000 { return ulong(t, p[0], p[3]); }
    let (name, c, rd, lo, hi, tags, n) = code(p[0], p[1]); let mut r = Rng::new(p[2]);
    let vs = if p.len() > 3 { vec![p[3]] } else { let k = 1 + r.below(6) as usize; values(&mut r, lo, hi, n, k) };
    let vs: Vec<u64> = vs.into_iter().filter(|v| *v >= lo && *v <= hi).collect();
    if vs.is_empty() { return; }
    t.lib(tags);
    trace(|| format!("{} (n = {}) encode {:?}", name, n, vs));
    let pre = if r.one_in(3) { r.below(10) as usize } else { 0 }; let pre = rand_bits(&mut r, pre);
    let mut s = Sink(pre.clone()); let mut vd: VecDeque<bool> = VecDeque::new(); let mut bb: BitBuffer<BitVector<u8>> = BitBuffer::new(); let mut bw: BitBuffer<BitVector<usize>> = BitBuffer::with_capacity(10);
    let mut ends = vec![pre.len()];
    for v in &vs {
        for (how, e) in [("custom sink", c.enc(&mut s, *v)), ("VecDeque", c.enc(&mut vd, *v)), ("BitBuffer<u8>", c.enc(&mut bb, *v)), ("BitBuffer<usize>", c.enc(&mut bw, *v))] { t.check(tags, e.is_ok(), || format!("{} refuses to encode {} into {}: {:?}", name, v, how, e.err())); }
        ends.push(s.0.len());
    }
    t.check(tags, s.0[..pre.len()] == pre[..], || "encoding changed earlier bits".into());
    let bits = s.0[pre.len()..].to_vec();
    t.check(tags, vd.iter().copied().collect::<Vec<_>>() == bits, || "VecDeque received other bits than a plain sink".into());
    for (l, g) in [(bb.inner().bit_len(), (0..bb.inner().bit_len()).map(|i| bb.inner().get_bit(i)).collect::<Vec<_>>()), (bw.inner().bit_len(), (0..bw.inner().bit_len()).map(|i| bw.inner().get_bit(i)).collect::<Vec<_>>())] { t.check(tags, g == bits, || format!("BitBuffer received {} bits that differ from a plain sink's {}", l, bits.len())); }
    // decode with junk following
    let jn = match r.below(4) { 0 => 0, 1 => 1 + r.below(5) as usize, _ => r.below(200) as usize }; let junk = rand_bits(&mut r, jn);
    let mut all = bits.clone(); all.extend(&junk);
    let mut src = Src::new(&all, None);
    for (i, v) in vs.iter().enumerate() {
        let g = c.dec(&mut src);
        t.check(tags, matches!(g, Ok(Some(x)) if x == *v), || format!("{} (n = {}): encoded {:?}; decoding number {} gave {}, expected {}; bits {}", name, n, vs, i, desc(&g), v, show(&all)));
        t.check(tags, src.pos + pre.len() == ends[i + 1], || format!("{} (n = {}): value {} was written as {} bits but decoding consumed {}", name, n, v, ends[i + 1] - ends[i], (src.pos + pre.len()) as i64 - ends[i] as i64));
    }
    // clean end of input
    let mut vd2 = vd.clone(); let mut b2 = BitBuffer::from(bb.into_inner());
    for v in &vs { let g = c.dec(&mut vd2); t.check(tags, matches!(g, Ok(Some(x)) if x == *v), || format!("{} (n = {}): decoding {} from a VecDeque gave {}", name, n, v, desc(&g))); let g = c.dec(&mut b2); t.check(tags, matches!(g, Ok(Some(x)) if x == *v), || format!("{} (n = {}): decoding {} from a BitBuffer gave {}", name, n, v, desc(&g))); }
    let g = c.dec(&mut vd2); t.check(tags, matches!(g, Ok(None)), || format!("{} (n = {}): after all codes decoding gave {}", name, n, desc(&g)));
    let g = c.dec(&mut b2); t.check(tags, matches!(g, Ok(None)), || format!("{} (n = {}): after all codes decoding gave {}", name, n, desc(&g)));
    // the definition of the code
    let mut k = 0; for v in &vs { let (x, l) = rd(&bits[k..], n); t.check(tags, x == Ref::Val(*v as u128, true), || format!("{} (n = {}): the encoding of {} reads as {:?} by the code's definition; bits {}", name, n, v, x, show(&bits[k..]))); k += l; }
    t.lib(&[]);
}

/// refusals of the encoders
pub fn coderef(t: &T, p: &[u64]) {
    let (name, c, _, lo, hi, tags, n) = code(p[0], p[1]);
    for bad in [if lo > 0 { Some(0u64) } else { None }].into_iter().flatten() {
        let mut s = Sink(vec![]); let mut res: Option<Result<()>> = None;
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { res = Some(c.enc(&mut s, bad)); })).is_ok();
        t.check(tags, !(ok && matches!(res, Some(Ok(())))), || format!("{} accepts {}", name, bad));
    }
    // values above: an error, or a faithful encoding
    let mut r = Rng::new(p[2]);
    if hi > 10_000 && hi < u64::MAX { for k in 0..20 { let v = if k == 0 { u64::MAX } else if k == 1 { hi + 1 } else { hi + 1 + r.below(u64::MAX - hi) };
        t.lib(tags); let mut s = Sink(vec![]); let e = c.enc(&mut s, v); t.lib(&[]);
        if e.is_ok() { s.0.extend([true, false, true]); let l = s.0.len(); let mut src = Src::new(&s.0, None); t.lib(tags); let g = c.dec(&mut src); t.lib(&[]); t.check(tags, matches!(g, Ok(Some(x)) if x == v) && src.pos == l - 3, || format!("{} (n = {}) accepted {} but decoding gave {} using {} of {} bits", name, n, v, desc(&g), src.pos, l - 3)); } } }
}

/// arbitrary bits, failing sources
pub fn decany(t: &T, p: &[u64]) {
    if (p[0] == 0 || p[0] == 11) && p[3] > 5000 { return ulong(t, p[0], p[3]); }
    const C: &[&str] = &["C15"];
    let (name, c, rd, lo, hi, _, n) = code(p[0], p[1]); let mut r = Rng::new(p[2]);
    let l = p[3] as usize;
    let mut bits: Vec<bool> = match p[2] % 5 {
        0 => (0..l).map(|i| p[4] >> i & 1 == 1).collect(),
        1 => { let z = r.below(l as u64 + 1) as usize; let mut v = vec![r.one_in(5); z]; v.extend(rand_bits(&mut r, l - z)); v }
        2 => (0..l).map(|i| i % 2 == (p[4] & 1) as usize).collect(),
        3 => { let mut s = Sink(vec![]); for v in values(&mut r, lo, hi, n, 3) { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = c.enc(&mut s, v); })); } s.0.truncate(4000); if r.bool() && !s.0.is_empty() { let i = r.below(s.0.len() as u64) as usize; s.0[i] ^= true; } if r.bool() { let k = r.below(s.0.len() as u64 + 1) as usize; s.0.truncate(k); } s.0 }
        _ => rand_bits(&mut r, l),
    };
    if r.one_in(8) { bits.extend(rand_bits(&mut r, 80)); }
    let fail_at = if r.one_in(3) { Some(r.below(bits.len() as u64 + 2) as usize) } else { None };
    t.lib(C);
    trace(|| format!("{} (n = {}) decoding {} bits {} failing at {:?}", name, n, bits.len(), show(&bits), fail_at));
    let mut src = Src::new(&bits, fail_at);
    for _ in 0..4 {
        let start = src.pos;
        let g = c.dec(&mut src);
        t.check(C, src.after_end == 0, || format!("{} read on after the source ended or failed", name));
        let used = src.pos - start;
        let failed = fail_at.is_some() && src.ended && src.fail_at == Some(src.pos);
        let avail = match fail_at { Some(f) => &bits[start..f.max(start).min(bits.len())], None => &bits[start..] };
        let (e, k) = rd(avail, n);
        if failed {
            t.check(C, matches!(&g, Err(e) if e.kind() == ErrorKind::PermissionDenied && e.to_string().contains("vx-source-error")), || format!("{}: the source failed after {} bits but decoding gave {}", name, used, desc(&g)));
            break;
        }
        let src_fails_here = fail_at.map_or(false, |f| f <= bits.len() && f >= start);
        match &g {
            Ok(Some(v)) => { t.check(C, matches!(e, Ref::Val(x, _) if x == *v as u128) && k == used, || format!("{} (n = {}): bits {} decode to {} using {} bits, expected {:?} using {}", name, n, show(&bits[start..]), v, used, e, k)); }
            Ok(None) => { t.check(C, used == 0 && start == bits.len(), || format!("{} (n = {}): clean end reported after consuming {} bits with {} left", name, n, used, bits.len() - start)); break; }
            Err(er) => {
                t.check(C, er.kind() != ErrorKind::PermissionDenied, || "foreign error".into());
                let ok = match e { Ref::Val(v, canon) => v > hi as u128 || !canon, Ref::Bad | Ref::Short => true, Ref::Clean => src_fails_here && used == 0 && false };
                t.check(C, ok, || format!("{} (n = {}): bits {} gave {}, expected {:?}", name, n, show(&bits[start..]), desc(&g), e));
                break;
            }
        }
    }
    // the library's own sources behave the same
    if fail_at.is_none() {
        let mut vd: VecDeque<bool> = bits.iter().copied().collect(); let mut bb = BitBuffer::from(bits.clone()); let mut s = Src::new(&bits, None);
        let (a, b, c2) = (c.dec(&mut vd), c.dec(&mut bb), c.dec(&mut s));
        t.check(C, desc(&a) == desc(&c2) && desc(&b) == desc(&c2), || format!("{}: VecDeque gives {}, BitBuffer {}, a plain source {}", name, desc(&a), desc(&b), desc(&c2)));
        t.check(C, bits.len() - vd.len() == s.pos && bb.position() == s.pos as u64, || format!("{}: VecDeque consumed {}, BitBuffer {}, a plain source {}", name, bits.len() - vd.len(), bb.position(), s.pos));
    }
    t.lib(&[]);
}

// ---------------------------------------------------------------- fixed-width integers
trait Int: num_traits::PrimInt + std::fmt::Debug { const IW: usize; fn iof(x: u128) -> Self; fn to(self) -> u128; }
macro_rules! int { ($($t:ident),*) => { $( impl Int for $t { const IW: usize = 8 * std::mem::size_of::<$t>(); fn iof(x: u128) -> Self { x as $t } fn to(self) -> u128 { (self as u128) & (if Self::IW == 128 { !0 } else { (1u128 << Self::IW) - 1 }) } } )* } }
int!(u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128);

fn ints_t<N: Int>(t: &T, p: &[u64]) {
    const C: &[&str] = &["C16"];
    let w = N::IW; let n = (p[1] as usize) % (w + 1); let mut r = Rng::new(p[2]);
    let raw = r.word() as u128 | (r.word() as u128) << 64; let x = N::iof(raw); let xv = x.to();
    let low = if n == 128 { xv } else { xv & ((1u128 << n) - 1) };
    let ebits: Vec<bool> = (0..n).map(|i| low >> i & 1 == 1).collect();
    let mut rbits = ebits.clone(); rbits.reverse();
    let pre_n = if r.bool() { 0 } else { r.below(12) as usize }; let pre = rand_bits(&mut r, pre_n);
    let post_n = if r.bool() { 0 } else { r.below(12) as usize }; let post = rand_bits(&mut r, post_n);
    t.lib(C);
    for big in [false, true] {
        let e = if big { &rbits } else { &ebits };
        trace(|| format!("write_int{}({}, {:?})", if big { "_be" } else { "" }, n, x));
        let mut s = Sink(pre.clone()); let mut vd: VecDeque<bool> = pre.iter().copied().collect(); let mut bb = BitBuffer::append(bv_of::<u16>(&pre));
        let o = if big { [s.write_int_be(n, x), vd.write_int_be(n, x), bb.write_int_be(n, x)] } else { [s.write_int(n, x), vd.write_int(n, x), bb.write_int(n, x)] };
        t.check(C, o.iter().all(|r| r.is_ok()), || "writing failed".into());
        let mut want = pre.clone(); want.extend(e);
        t.check(C, s.0 == want, || format!("wrote {} after {}, expected {}", show(&s.0[pre.len().min(s.0.len())..]), show(&pre), show(e)));
        t.check(C, vd.iter().copied().collect::<Vec<_>>() == want && (0..bb.inner().bit_len()).map(|i| bb.inner().get_bit(i)).collect::<Vec<_>>() == want, || "VecDeque or BitBuffer received other bits".into());
        let mut all = e.clone(); all.extend(&post);
        let mut src = Src::new(&all, None); let mut v2: VecDeque<bool> = all.iter().copied().collect(); let mut b2 = BitBuffer::from(bv_of::<u8>(&all));
        let g: [Result<Option<N>>; 3] = if big { [src.read_int_be(n), v2.read_int_be(n), b2.read_int_be(n)] } else { [src.read_int(n), v2.read_int(n), b2.read_int(n)] };
        for (i, g) in g.iter().enumerate() {
            let ok = matches!(g, Ok(Some(y)) if y.to() == low);
            t.check(C, ok, || format!("read_int{}({}) of {} from source {} gave {:?}, expected {:#x}", if big { "_be" } else { "" }, n, show(&all), i, g.as_ref().map(|o| o.map(|y| y.to())), low));
        }
        t.check(C, src.pos == n && v2.len() == post.len() && b2.position() == n as u64, || format!("reading {} bits consumed {} / {} / {}", n, src.pos, all.len() - v2.len(), b2.position()));
        // too few bits
        if n > 0 { for k in [0usize, n - 1, r.below(n as u64) as usize] {
            let mut s = Src::new(&e[..k], None); let g: Result<Option<N>> = if big { s.read_int_be(n) } else { s.read_int(n) };
            const D: &[&str] = &["C15", "C16"];
            t.check(D, if k == 0 { matches!(g, Ok(None)) } else { g.is_err() }, || format!("reading {} bits with {} left gave {:?}", n, k, g.as_ref().map(|o| o.map(|y| y.to())).map_err(|e| e.kind())));
            t.check(D, s.after_end == 0, || "read on after the end".into());
            let mut s = Src::new(&e[..], Some(k)); let g: Result<Option<N>> = if big { s.read_int_be(n) } else { s.read_int(n) };
            t.check(D, matches!(&g, Err(e) if e.kind() == ErrorKind::PermissionDenied) && s.after_end == 0, || format!("the source failed at bit {} of {} but reading gave {:?}", k, n, g.as_ref().map(|o| o.map(|y| y.to())).map_err(|e| e.kind())));
        } }
    }
    t.lib(&[]);
}
pub fn ints(t: &T, p: &[u64]) {
    match p[0] % 12 { 0 => ints_t::<u8>(t, p), 1 => ints_t::<u16>(t, p), 2 => ints_t::<u32>(t, p), 3 => ints_t::<u64>(t, p), 4 => ints_t::<usize>(t, p), 5 => ints_t::<i8>(t, p), 6 => ints_t::<i16>(t, p), 7 => ints_t::<i32>(t, p), 8 => ints_t::<i64>(t, p), 9 => ints_t::<isize>(t, p), 10 => ints_t::<u128>(t, p), _ => ints_t::<i128>(t, p) }
}
pub fn ints15(t: &T, p: &[u64]) {
    // reading integers from arbitrary bits; widths that do not fit need not be supported
    const C: &[&str] = &["C15"]; let mut r = Rng::new(p[2]);
    let l = p[1] as usize % 140; let bits = rand_bits(&mut r, l); let mut s = Src::new(&bits, if r.bool() { None } else { Some(r.below(l as u64 + 1) as usize) });
    t.lib(C);
    for _ in 0..6 { let n = r.below(65) as usize; let st = s.pos; let be_ = r.bool();
        let g: Result<Option<u64>> = if be_ { s.read_int_be(n) } else { s.read_int(n) };
        t.check(C, s.after_end == 0, || "read on after the end".into());
        match g { Ok(Some(v)) => { let w = &bits[st..st + n]; let e = if be_ { be(w) } else { le(w) }; t.check(C, s.pos == st + n && v as u128 == e, || format!("read_int({}) gave {:#x}, expected {:#x}", n, v, e)); }
            Ok(None) => { t.check(C, s.pos == st && st == l && n > 0, || format!("clean end after consuming {} bits, {} left", s.pos - st, l - st)); break; }
            Err(e) => { t.check(C, if s.fail_at == Some(s.pos) { e.kind() == ErrorKind::PermissionDenied } else { s.pos == l && s.pos > st && n > l - st }, || format!("read_int({}) with {} left gave {:?}", n, l - st, e.kind())); break; } } }
    t.lib(&[]);
}

// ---------------------------------------------------------------- bit buffers
fn bbuf_v<V: BitVecPush + Clone>(t: &T, v: V, mut m: Vec<bool>, r: &mut Rng, nops: usize) {
    const C: &[&str] = &["C17"];
    t.lib(C);
    let mut pos: usize;
    let mut b = if r.bool() { pos = 0; trace(|| format!("BitBuffer::from({} bits)", m.len())); BitBuffer::from(v) } else { pos = m.len(); trace(|| format!("BitBuffer::append({} bits)", m.len())); BitBuffer::append(v) };
    for _ in 0..nops {
        match r.below(9) {
            0 | 1 | 2 => { trace(|| "read_bit".into()); let g = b.read_bit(); let e = m.get(pos).copied(); if e.is_some() { pos += 1; } t.check(C, matches!(&g, Ok(x) if *x == e), || format!("read_bit() at {} of {} gave {:?}, expected {:?}", pos, m.len(), g.as_ref().ok(), e)); }
            3 | 4 | 5 => { let x = r.bool(); trace(|| format!("write_bit({})", x)); let g = b.write_bit(x); t.check(C, g.is_ok(), || "write_bit failed".into()); if pos < m.len() { m[pos] = x; } else { m.push(x); } pos += 1; }
            6 => { let q = match r.below(4) { 0 => m.len() as u64, 1 => if r.bool() { 0 } else { (m.len() as u64).saturating_sub(r.below(5)) }, _ => r.below(m.len() as u64 + 1) }; trace(|| format!("seek({})", q)); let g = b.seek(q); t.check(C, g.is_ok(), || format!("seek({}) of {} refused", q, m.len())); pos = q as usize; }
            7 => { let q = match r.below(4) { 0 => m.len() as u64 + 1, 1 => u64::MAX, 2 => m.len() as u64 + 64, _ => m.len() as u64 + 1 + r.below(1000) }; trace(|| format!("seek({})", q)); let g = b.seek(q); t.check(C, g.is_err(), || format!("seek({}) past the end {} accepted", q, m.len())); }
            _ => { let k = 1 + r.below(9) as usize; let x = r.next(); trace(|| format!("write_int({}, {:#x})", k, x)); let g = b.write_int(k, x); t.check(C, g.is_ok(), || "write_int failed".into()); for i in 0..k { if pos < m.len() { m[pos] = x >> i & 1 == 1; } else { m.push(x >> i & 1 == 1); } pos += 1; } }
        }
        t.check(C, b.position() == pos as u64, || format!("position() = {}, expected {}", b.position(), pos));
        t.check(C, b.bit_len() == m.len() as u64 && b.inner().bit_len() == m.len() as u64, || format!("{} bits, expected {}", b.inner().bit_len(), m.len()));
        if m.len() < 200 || r.one_in(10) { for i in 0..m.len() { t.check(C, b.inner().get_bit(i as u64) == m[i], || format!("bit {} reads {}; expected {}", i, !m[i], show(&m))); t.check(C, b.get_bit(i as u64) == m[i], || format!("bit {} through the buffer", i)); } }
    }
    let v = b.into_inner();
    t.check(C, v.bit_len() == m.len() as u64 && (0..m.len()).all(|i| v.get_bit(i as u64) == m[i]), || format!("into_inner() differs from {}", show(&m)));
    t.lib(&[]);
}
fn bbuf_b<B: Blk>(t: &T, p: &[u64]) {
    let mut r = Rng::new(p[2]); let n = if r.bool() { p[3] as usize } else { r.below(p[3].max(1)) as usize }; let m = rand_bits(&mut r, n);
    match p[1] % 4 {
        0 => { let v = m.clone(); bbuf_v(t, v, m, &mut r, 60) }
        1 => { let v: BitOnly<B> = BitOnly::new(&m); bbuf_v(t, v, m, &mut r, 60) }
        2 => { // new() and with_capacity()
            const C: &[&str] = &["C17"]; t.lib(C); let mut b: BitBuffer<BitVector<B>> = if r.bool() { BitBuffer::new() } else { BitBuffer::with_capacity(r.below(300)) };
            t.check(C, b.position() == 0 && b.bit_len() == 0 && matches!(b.read_bit(), Ok(None)) && b.seek(1).is_err() && b.seek(0).is_ok(), || "a new buffer is not empty".into());
            for x in &m { let _ = b.write_bit(*x); } t.check(C, b.position() == n as u64 && matches!(b.read_bit(), Ok(None)) && b.position() == n as u64, || "after writing".into());
            t.check(C, b.seek(0).is_ok(), || "seek(0)".into()); for (i, x) in m.iter().enumerate() { let g = b.read_bit(); t.check(C, matches!(g, Ok(Some(y)) if y == *x), || format!("bit {} read back as {:?}", i, g.as_ref().ok())); } t.lib(&[]); let v = b.into_inner(); bbuf_v(t, v, m, &mut r, 30) }
        _ => { let v: BitVector<B> = bv_of(&m); bbuf_v(t, v, m, &mut r, 60) }
    }
    // read-only sources
    const C: &[&str] = &["C17"]; t.lib(C);
    let m = rand_bits(&mut r, n); let v: BitVector<B> = bv_of(&m); let a = r.below(n as u64 + 1); let s = BitSlice::new(&v, a..);
    let mut b = BitBuffer::from(s); let mut k = a as usize; loop { let g = b.read_bit(); match g { Ok(Some(x)) => { t.check(C, k < n && m[k] == x, || format!("bit {} of a slice read as {}", k, x)); k += 1; } Ok(None) => break, Err(_) => { t.check(C, false, || "read_bit failed".into()); break; } } if k > n { break; } }
    t.check(C, k == n && b.position() == n as u64 - a, || format!("reading a slice stopped at {} of {}", k, n));
    t.lib(&[]);
}
pub fn bbuf(t: &T, p: &[u64]) { disp!(p[0], bbuf_b(t, p)) }
