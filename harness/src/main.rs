#![allow(dead_code)]
//! vxh: the executable contracts of the properties, run on the real crate.
//!   vxh run <prop> <scale> <secs> <seed> <out.json> [journal]
//!   vxh replay <prop> <engine> <params...>
mod fw;
mod common;
mod bv;
mod access;
mod ranksel;
mod codes;
mod space;
use fw::*;
use std::time::{Duration, Instant};

#[global_allocator]
static A: fw::Counting = fw::Counting;

const ENGINES: &[(&str, Engine)] = &[
    #[cfg(feature = "bvhist")] ("bvhist", bv::bvhist),
    #[cfg(feature = "bvresize")] ("bvresize", bv::bvresize),
    #[cfg(feature = "ivhist")] ("ivhist", bv::ivhist),
    #[cfg(feature = "ivgrid")] ("ivgrid", bv::ivgrid),
    #[cfg(feature = "refuse")] ("refuse", bv::refuse),
    #[cfg(feature = "access")] ("access", access::access),
    #[cfg(feature = "slice")] ("slice", access::slice),
    #[cfg(feature = "slicegrid")] ("slicegrid", access::slicegrid),
    #[cfg(feature = "blkword")] ("blkword", access::blkword),
    #[cfg(feature = "blkidx")] ("blkidx", access::blkidx),
    #[cfg(feature = "jac")] ("jac", ranksel::jac),
    #[cfg(feature = "r9")] ("r9", ranksel::r9),
    #[cfg(feature = "sel")] ("sel", ranksel::sel),
    #[cfg(feature = "bw")] ("bw", ranksel::bw),
    #[cfg(feature = "codert")] ("codert", codes::codert),
    #[cfg(feature = "coderef")] ("coderef", codes::coderef),
    #[cfg(feature = "decany")] ("decany", codes::decany),
    #[cfg(feature = "ints")] ("ints", codes::ints),
    #[cfg(feature = "ints15")] ("ints15", codes::ints15),
    #[cfg(feature = "bbuf")] ("bbuf", codes::bbuf),
    #[cfg(feature = "space")] ("space", space::space),
    #[cfg(feature = "spaceflags")] ("spaceflags", space::spaceflags),
    #[cfg(feature = "bio")] ("bio", space::bio),
];
/// an engine left out of the build (Cargo features) is not part of any property built
fn engine(n: &str) -> Option<(&'static str, Engine)> { ENGINES.iter().find(|e| e.0 == n).copied() }

struct P<'a> { t: &'a mut T, r: Rng, go: bool }
impl<'a> P<'a> {
    fn c(&mut self, n: &str, p: &[u64]) { if self.go { let (n, f) = engine(n).unwrap(); self.go = self.t.case(n, f, p); } }
    fn s(&mut self) -> u64 { self.r.next() }
    fn b(&mut self, n: u64) -> u64 { self.r.below(n) }
    /// a size near a power of two or a multiple of the block sizes
    fn n(&mut self) -> u64 { match self.b(4) { 0 => (1u64 << (5 + self.b(7))) + self.b(3) - 1, 1 => 64 * self.b(40) + self.b(3), 2 => 256 * (1 + self.b(9)) - self.b(2), _ => self.b(1500) } }
}

fn bv_plan(p: &mut P, k: u64) {
    for blk in 0..5 {
        for i in 0..k { let s = p.s(); let max = [20, 70, 200, 700, 3000][(i % 5) as usize]; let nops = [12, 40, 120][(i % 3) as usize]; p.c("bvhist", &[blk, s, nops, max]); }
    }
}
fn resize_plan(p: &mut P, k: u64) {
    for blk in 0..5u64 { let nb = [8u64, 16, 32, 64, 64][blk as usize];
        for a in [0, 1, nb - 1, nb, nb + 1, 2 * nb] { for b in [0, 1, nb - 1, nb, nb + 1, 2 * nb - 1, 2 * nb] { for f in 0..4 { p.c("bvresize", &[blk, a, b, f]); } } }
        for _ in 0..k { let (a, b, f) = (p.b(5 * nb), p.b(5 * nb), p.b(64)); p.c("bvresize", &[blk, a, b, f]); }
        for _ in 0..k / 5 + 1 { let (a, b, f) = (p.n(), p.n(), p.b(64)); p.c("bvresize", &[blk, a, b, f]); } }
}
fn iv_plan(p: &mut P, k: u64) {
    for blk in 0..5u64 { let nb = [8u64, 16, 32, 64, 64][blk as usize];
        for w in 1..=nb { for i in 0..k { let s = p.s(); p.c("ivhist", &[blk, s, 10 + 20 * (i % 3), [5, 20, 70][(i % 3) as usize], w]); }
            for i in 0..k / 3 + 1 { let (s, m) = (p.s(), [300, 1100, 5000, 270 * w, 600 * w][p.b(5) as usize]); p.c("ivhist", &[blk, s, 30 + 30 * (i % 3), m, w]); }
            for i in 0..2 { let (n, s) = (if i == 0 { (1 << (4 + p.b(5))) + p.b(3) - 1 } else { p.n() % 1100 }, p.s()); p.c("ivgrid", &[blk, w, n, s]); } } }
}
fn ivgrid_plan(p: &mut P, k: u64) {
    for blk in 0..5u64 { let nb = [8u64, 16, 32, 64, 64][blk as usize];
        for w in 1..=nb { for n in 0..k { let f = p.s(); p.c("ivgrid", &[blk, w, n, f]); } } }
}
fn access_plan(p: &mut P, k: u64, kinds: &[u64]) {
    for blk in 0..5u64 { let nb = [8u64, 16, 32, 64, 64][blk as usize];
        for &kind in kinds {
            for n in [0, 1, nb - 1, nb, nb + 1, 2 * nb - 1, 2 * nb, 2 * nb + 1] { let s = p.s(); p.c("access", &[blk, kind, n, s]); }
            for _ in 0..k { let (n, s) = (p.b(5 * nb), p.s()); p.c("access", &[blk, kind, n, s]); }
            if k >= 12 { for n in 0..=3 * nb + 1 { let s = p.s(); p.c("access", &[blk, kind, n, s]); } }
        } }
}
fn slice_plan(p: &mut P, k: u64) {
    for blk in 0..5u64 { let nb = [8u64, 16, 32, 64, 64][blk as usize];
        for kind in 0..9 { for _ in 0..k { let (n, s) = (p.b(5 * nb + 1), p.s()); p.c("slice", &[blk, kind, n, s]); } } }
}
fn slicegrid_plan(p: &mut P, k: u64) {
    for blk in 0..5u64 { let nb = [8u64, 16, 32, 64, 64][blk as usize];
        for n in [nb - 1, nb, nb + 1, 2 * nb, 2 * nb + 3] { let step = if nb <= 16 || k > 4 { 1 } else { 5 };
            let mut a = 0; while a <= n { let mut b = a; while b <= n { p.c("slicegrid", &[blk, n, a, b]); b += step; } a += step; } } }
}
fn jac_plan(p: &mut P, dense: u64, mid: u64, big: u64) {
    for blk in 0..5u64 { let nb = [8u64, 16, 32, 64, 64][blk as usize];
        for n in 0..=(dense.max(2 * nb + 1)) { let (k, d, s) = (p.b(7), p.b(8), p.s()); p.c("jac", &[blk, k, n, d, s]); }
        for i in 0..mid { let n = match i % 4 { 0 => p.b(4000), 1 => p.b(60) * nb + p.b(3), 2 => 256 * (1 + p.b(20)) + p.b(5) - 2, _ => p.b(20000) }; let (k, d, s) = (p.b(7), p.b(8), p.s()); p.c("jac", &[blk, k, n, d, s]); }
        for i in 0..big { let n = match i % 3 { 0 => (1 << 16) + p.b(3 * nb), 1 => p.b(1 << 18), _ => (1 << (12 + p.b(7))) + p.b(5) }; let (k, d, s) = ([0, 1, 2, 3, 6][p.b(5) as usize], [1, 7, 3, 2, 5, 4][(i % 6) as usize], p.s()); p.c("jac", &[blk, k, n, d, s]); }
    }
}
fn r9_plan(p: &mut P, dense: u64, mid: u64, big: u64) {
    for n in 0..=dense { for _ in 0..2 { let (k, d, s) = (p.b(6), p.b(8), p.s()); p.c("r9", &[k, n, d, s]); } }
    for i in 0..mid { let n = match i % 4 { 0 => p.b(4000), 1 => 64 * p.b(60) + p.b(3), 2 => 512 * (1 + p.b(20)) + p.b(5) - 2, _ => p.b(20000) }; let (k, d, s) = (p.b(6), p.b(8), p.s()); p.c("r9", &[k, n, d, s]); }
    for i in 0..big { let n = match i % 3 { 0 => (1 << 16) + p.b(700), 1 => p.b(1 << 18), _ => (1 << (12 + p.b(7))) + p.b(5) }; let (k, d, s) = ([0, 1, 2, 3, 4][p.b(5) as usize], [1, 7, 3, 2, 5, 4][(i % 6) as usize], p.s()); p.c("r9", &[k, n, d, s]); }
}
fn code_plan(p: &mut P, ids: &[u64], small: u64, k: u64) {
    for &id in ids {
        let params: Vec<u64> = if [7, 8, 12, 14].contains(&id) { (0..62).collect() } else { vec![0, 1] };
        let np = params.len() as u64;
        for pa in params {
            for v in 0..(small / np).max(70) { let s = p.s(); p.c("codert", &[id, pa, s, v]); }
            for e in 0..64u64 { for d in 0..3u64 { let v = (1u64 << e).wrapping_add(d).wrapping_sub(1); let s = p.s(); p.c("codert", &[id, pa, s, v]); } }
            for d in 0..4u64 { let s = p.s(); p.c("codert", &[id, pa, s, u64::MAX - d]); }
            if id == 0 || id == 11 { for _ in 0..20 { let (s, v) = (p.s(), 5001 + p.b(200_000)); p.c("codert", &[id, pa, s, v]); } }
            if id == 6 || id == 10 { for f in codes::fibs() { for d in 0..5u64 { let s = p.s(); p.c("codert", &[id, pa, s, f.wrapping_add(d).wrapping_sub(2)]); } } for d in 0..6 { let s = p.s(); p.c("codert", &[id, pa, s, codes::FIBMAX - d]); } }
            for _ in 0..(k / np).max(4) { let s = p.s(); p.c("codert", &[id, pa, s]); }
            for _ in 0..3 { let s = p.s(); p.c("coderef", &[id, pa, s]); }
        }
    }
}
fn dec_plan(p: &mut P, exh: u64, k: u64) {
    for id in [0, 11] { for e in 13..23u64 { for d in 0..4u64 { p.c("decany", &[id, 0, 0, (1 << e) + d - 2, 0]); } } }
    for id in 0..codes::NCODE {
        let params: Vec<u64> = if [7, 8, 12, 14].contains(&id) { if id == 7 { vec![0, 1, 2, 5, 6, 14, 30, 61] } else { vec![0, 3, 61] } } else { vec![0, 1] };
        let np = params.len() as u64;
        for (i, pa) in params.iter().enumerate() {
            if i < 3 { for l in 0..=exh { for w in 0..1u64 << l { let s = p.b(1 << 40) * 5; p.c("decany", &[id, *pa, s, l, w]); } } }
            for l in 0..300 { for x in 0..2 { let s = 5 * p.b(1 << 40) + 2 * (l % 2) ; let s = if l % 2 == 0 { s + 1 } else { s }; p.c("decany", &[id, *pa, s, l, x]); } }
            for _ in 0..k / np { let (s, l) = (p.s(), p.b(400)); let w = p.s(); p.c("decany", &[id, *pa, s, l, w]); }
        }
    }
}

fn plan(p: &mut P, prop: &str, z: u64) {
    const ALLK: [u64; 17] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];
    match prop {
        "C01" => { resize_plan(p, 300 * z); bv_plan(p, 2000 * z); access_plan(p, 60 * z, &[13, 14]); }
        "C02" => { ivgrid_plan(p, 20); iv_plan(p, 20 * z); }
        "C03" => { resize_plan(p, 100 * z); bv_plan(p, 400 * z); ivgrid_plan(p, 10); iv_plan(p, 8 * z); }
        "C04" => { access_plan(p, 60 * z, &ALLK); bv_plan(p, 60 * z); slice_plan(p, 20 * z); iv_plan(p, z); }
        "C05" => { slicegrid_plan(p, z); slice_plan(p, 250 * z); }
        "C06" => { jac_plan(p, 300, 400 * z, 12 * z); if !cfg!(debug_assertions) { let s = p.s(); p.c("jac", &[3, 99, (1 << 32) + 4129, !0, s]); } access_plan(p, 10, &[10, 15, 16]); }
        "C07" => { r9_plan(p, 1300, 1000 * z, 30 * z); if !cfg!(debug_assertions) { let s = p.s(); p.c("r9", &[99, (1 << 32) + 4129, !0, s]); } access_plan(p, 10, &[11]); }
        "C08" => { for blk in 0..5 { for n in 0..40 { let s = p.s(); p.c("sel", &[0, n, s]); p.c("sel", &[2, blk, s]); } }
                   for i in 0..1500 * z { let s = p.s(); p.c("sel", &[1, i, s]); p.c("sel", &[2, i, s]); p.c("sel", &[3, i, s]); let n = p.b(200); p.c("sel", &[0, n, s]); }
                   jac_plan(p, 130, 20 * z, z); r9_plan(p, 200, 40 * z, 2 * z); access_plan(p, 5, &[10, 11, 16]); }
        "C09" => { for i in 0..64u32 { for j in 0..64u32 { p.c("bw", &[1 << i | 1 << j, !(1u64 << i)]); p.c("bw", &[!(1u64 << i | 1 << j), 1u64 << j]); } }
                   for b in 0..256u64 { for c in 0..256u64 { let l = 0x0101_0101_0101_0101u64; let k = 8 * ((b + c) % 8); p.c("bw", &[(l * b) ^ (1 << k) , (l * c).rotate_left(b as u32)]); } }
                   for _ in 0..15_000 * z { let x = p.r.word(); let y = if p.b(4) == 0 { x ^ p.r.word() & p.r.word() & p.r.word() } else { p.r.word() }; p.c("bw", &[x, y]); }
                   for _ in 0..200 { let s = p.s(); p.c("sel", &[1, 0, s]); } }
        "C10" => { for b in 0..256 { for c in 0..256 { p.c("blkword", &[0, b, c]); } }
                   for blk in 0..5u64 { let nb = [8u32, 16, 32, 64, 64][blk as usize];
                       for i in 0..nb { for j in 0..nb { for (d, e) in [(0u64, 0u64), (1, 0), (0u64.wrapping_sub(1), 1)] { p.c("blkword", &[blk, (1u64 << i).wrapping_add(d), (1u64 << j).wrapping_add(e)]); } } }
                       for _ in 0..6000 * z { let (x, y) = (p.r.word(), p.r.word()); p.c("blkword", &[blk, x, y]); }
                       for x in 0..2000 { p.c("blkidx", &[blk, x]); } for d in 0..2000u64 { p.c("blkidx", &[blk, u64::MAX - d]); }
                       for e in 0..64u32 { for d in 0..5u64 { p.c("blkidx", &[blk, (1u64 << e).wrapping_add(d).wrapping_sub(2)]); } }
                       for _ in 0..3000 * z { let x = p.r.word() >> p.b(64); p.c("blkidx", &[blk, x]); } }
                   access_plan(p, 40 * z, &[12]); }
        "C11" => code_plan(p, &[0, 1, 2, 3, 4, 11, 13, 15, 9, 10, 12, 14], 2000, 1500 * z),
        "C12" => { code_plan(p, &[5, 9, 15], 70_000, 10_000 * z); }
        "C13" => { code_plan(p, &[6, 10], 70_000, 10_000 * z); }
        "C14" => { code_plan(p, &[7, 12, 14], 30_000, 8000 * z); }
        "C15" => { dec_plan(p, 9, 3000 * z); for l in 0..140 { for _ in 0..20 * z { let s = p.s(); p.c("ints15", &[0, l, s]); } } for ty in 0..12 { for n in 0..=128 { let s = p.s(); p.c("ints", &[ty, n, s]); } } }
        "C16" => { for ty in 0..12 { for n in 0..=128 { for _ in 0..12 * z { let s = p.s(); p.c("ints", &[ty, n, s]); } } } }
        "C17" => { for blk in 0..5 { for kind in 0..4 { for m in [1, 2, 10, 70, 300] { for _ in 0..60 * z { let s = p.s(); p.c("bbuf", &[blk, kind, s, m]); } } for _ in 0..200 * z { let (s, m) = (p.s(), p.n()); p.c("bbuf", &[blk, kind, s, m]); } } } }
        "C18" => { access_plan(p, 12 * z, &ALLK); slice_plan(p, 12 * z); bv_plan(p, 30 * z); ivgrid_plan(p, 3); iv_plan(p, z); jac_plan(p, 140, 4 * z, 0); r9_plan(p, 200, 20 * z, 0);
                   for _ in 0..60 * z { let (x, y) = (p.r.word(), p.r.word()); p.c("bw", &[x, y]); for blk in 0..5 { p.c("blkword", &[blk, x, y]); } }
                   for blk in 0..5 { for s in 0..60 * z { p.c("blkidx", &[blk, s]); } }
                   slicegrid_plan(p, 1); }
        "C19" => { bv_plan(p, 250 * z); ivgrid_plan(p, 12); iv_plan(p, 8 * z); }
        "C20" => { bv_plan(p, 300 * z); ivgrid_plan(p, 5); iv_plan(p, 8 * z); for blk in 0..5 { for k in 1..=64 { let s = p.s(); p.c("refuse", &[blk, k, s]); } } resize_plan(p, 20); }
        "C21" => { p.c("spaceflags", &[]); for blk in 0..5 { for _ in 0..1500 * z { let s = p.s(); p.c("space", &[blk, s]); } } }
        "C22" => { for x in 0..256 { let s = p.s(); p.c("bio", &[0, x, s]); } for blk in 0..5 { for _ in 0..3000 * z { let (x, s) = (p.r.word(), p.s()); p.c("bio", &[blk, x, s]); } } for x in 0..65536 { let s = p.s(); p.c("bio", &[1, x, s]); } }
        "C23" => { for blk in 0..5 { for k in 0..=64 { for _ in 0..4 * z { let s = p.s(); p.c("refuse", &[blk, k, s]); } } } ivgrid_plan(p, 6); iv_plan(p, 4 * z); access_plan(p, 10 * z, &ALLK); slice_plan(p, 6 * z); }
        _ => panic!("unknown property {}", prop),
    }
}

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    quiet_panics();
    if a.len() >= 4 && a[1] == "replay" {
        watchdog(Duration::from_secs(60));
        let (n, f) = engine(&a[3]).expect("engine");
        let ps: Vec<u64> = a[4..].iter().map(|s| s.parse().expect("number")).collect();
        let mut t = T::new(&a[2], 0, 1, Instant::now() + Duration::from_secs(100_000), None);
        match t.run_one(n, f, &ps) { Some(m) => { println!("VIOLATED {}: {} {:?}\n {}", a[2], n, ps, m); std::process::exit(1) } None => { println!("HOLDS {}: {} {:?}", a[2], n, ps); } }
        return;
    }
    if a.len() < 7 || a[1] != "run" { eprintln!("usage: vxh run <prop> <scale> <secs> <seed> <out.json> [journal]"); std::process::exit(2); }
    let secs: u64 = a[4].parse().unwrap(); let seed: u64 = a[5].parse().unwrap(); let scale: u64 = a[3].parse().unwrap();
    watchdog(Duration::from_secs(60));
    let t0 = Instant::now();
    let mut t = T::new(&a[2], seed, scale, t0 + Duration::from_secs(secs), a.get(7).cloned());
    let r = Rng::new(seed ^ 0x5eed);
    { let mut p = P { t: &mut t, r, go: true }; plan(&mut p, &a[2], scale); }
    // a smaller history with the same failure
    if let Some((case, _)) = t.fail.clone() {
        let w: Vec<&str> = case.split(' ').collect(); let (n, f) = engine(w[0]).unwrap(); let mut ps: Vec<u64> = w[1..].iter().map(|x| x.parse().unwrap()).collect();
        let idx: &[usize] = match n { "bvhist" | "ivhist" => &[2, 3], "access" | "slice" | "jac" => &[2], "r9" | "ivgrid" => &[1], "bbuf" => &[3], _ => &[] };
        let mut budget = 300;
        let mut again = true;
        while again { again = false; for &i in idx { for cand in [0, ps.get(i).copied().unwrap_or(0) / 2, ps.get(i).copied().unwrap_or(0).saturating_sub(1)] { if i < ps.len() && cand < ps[i] && budget > 0 { budget -= 1; let mut q = ps.clone(); q[i] = cand; if let Some(m) = t.run_one(n, f, &q) { ps = q; t.fail = Some((std::iter::once(n.to_string()).chain(ps.iter().map(|x| x.to_string())).collect::<Vec<_>>().join(" "), m)); again = true; } } } } }
    }
    let mut o = String::new();
    o.push_str(&format!("{{\"property\":{},\"scale\":{},\"seed\":{},\"evals\":{},\"checks\":{},\"distinct\":{},\"cut\":{},\"wall_s\":{:.3},", js(&a[2]), scale, seed, t.evals, t.checks.get(), t.distinct.len(), t.cut, t0.elapsed().as_secs_f64()));
    o.push_str(&format!("\"samples\":[{}],", t.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    match &t.fail { Some((c, m)) => o.push_str(&format!("\"fail\":{{\"case\":{},\"message\":{}}}}}", js(c), js(m))), None => o.push_str("\"fail\":null}") }
    std::fs::write(&a[6], &o).expect("write output");
    std::process::exit(if t.fail.is_some() { 1 } else { 0 });
}
