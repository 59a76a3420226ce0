//! Rank, select, broadword.
use crate::common::*;
use crate::fw::*;
use crate::disp;
use succinct::bit_vec::*;
use succinct::rank::*;
use succinct::select::*;
use succinct::broadword;

fn prefix(m: &[bool]) -> Vec<u64> { let mut v = Vec::with_capacity(m.len()); let mut c = 0; for &b in m { c += b as u64; v.push(c); } v }

fn chk_rank<R: BitRankSupport>(t: &T, rk: &R, m: &[bool], pre: &[u64], tags: &'static [&'static str], r: &mut Rng, dense: bool) {
    let n = m.len();
    t.lib(tags);
    t.check(tags, rk.limit() == n as u64, || format!("limit() = {} for {} bits", rk.limit(), n));
    let step = if dense || n < 6000 { 1 } else { 1 + n / 6000 };
    let mut i = if step > 1 { r.below(step as u64) as usize } else { 0 };
    while i < n {
        let g = rk.rank1(i as u64);
        t.check(tags, g == pre[i], || format!("rank1({}) = {}, expected {} (length {})", i, g, pre[i], n));
        let g0 = rk.rank0(i as u64);
        t.check(tags, g0 == i as u64 + 1 - pre[i], || format!("rank0({}) = {}, expected {} (length {})", i, g0, i as u64 + 1 - pre[i], n));
        if n < 2000 || i % 16 == 0 {
            t.check(tags, rk.rank(i as u64, true) == pre[i] && rk.rank(i as u64, false) == i as u64 + 1 - pre[i], || format!("rank({}, true/false) = {}/{}, expected {}/{}", i, rk.rank(i as u64, true), rk.rank(i as u64, false), pre[i], i as u64 + 1 - pre[i]));
        }
        i += if step > 1 && r.one_in(3) { 1 } else { step };
    }
    t.lib(&[]);
    const C: &[&str] = &["C18"];
    if t.tagged(C) {
        let nn = n as u64;
        for p in [nn, nn + 1, nn + 7, (nn + 63) / 64 * 64, (nn + 63) / 64 * 64 + 1, (nn + 511) / 512 * 512, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32] { if p >= nn {
            t.must_panic(C, || format!("rank1({}) at limit {}", p, nn), || rk.rank1(p));
            t.must_panic(C, || format!("rank0({}) at limit {}", p, nn), || rk.rank0(p));
            t.must_panic(C, || format!("rank({}, true) at limit {}", p, nn), || rk.rank(p, true));
            t.must_panic(C, || format!("rank({}, false) at limit {}", p, nn), || rk.rank(p, false));
        } }
    }
}

fn chk_select<S: Select1Support + Select0Support + SelectSupport<Over = bool> + BitRankSupport>(t: &T, s: &S, m: &[bool], pre: &[u64], r: &mut Rng) {
    const C: &[&str] = &["C08"];
    t.lib(C);
    let ones: Vec<u64> = (0..m.len()).filter(|i| m[*i]).map(|i| i as u64).collect();
    let zeros: Vec<u64> = (0..m.len()).filter(|i| !m[*i]).map(|i| i as u64).collect();
    for (what, pos, b) in [("1", &ones, true), ("0", &zeros, false)] {
        let k = pos.len() as u64;
        let f = |i: u64| if b { s.select1(i) } else { s.select0(i) };
        let mut idx: Vec<u64> = if k <= 1500 { (0..k).collect() } else { (0..800).map(|_| r.below(k)).chain([0, 1, k - 1, k - 2]).collect() };
        idx.extend([k, k + 1, k + 2, 2 * k + 3, m.len() as u64, m.len() as u64 + 1, u64::MAX, u64::MAX - 1, u64::MAX / 2, u64::MAX / 2 + 1, 1 << 32, u64::MAX - m.len() as u64]);
        for i in idx {
            let e = pos.get(i as usize).copied().filter(|_| i < k);
            let g = f(i);
            t.check(C, g == e, || format!("select{}({}) = {:?}, expected {:?} ({} bits, {} of them)", what, i, g, e, m.len(), k));
            if r.one_in(4) || i >= k { let g = s.select(i, b); t.check(C, g == e, || format!("select({}, {}) = {:?}, expected {:?}", i, b, g, e)); }
        }
    }
    t.check(C, s.limit() == m.len() as u64, || format!("limit() = {}", s.limit()));
    for _ in 0..40 { if m.is_empty() { break; } let i = r.below(m.len() as u64) as usize;
        t.check(C, s.rank1(i as u64) == pre[i] && s.rank0(i as u64) == i as u64 + 1 - pre[i] && s.rank(i as u64, true) == pre[i] && s.rank(i as u64, false) == i as u64 + 1 - pre[i], || format!("rank at {} through the select structure", i)); }
    t.lib(&[]);
}

fn density(r: &mut Rng, n: usize, d: u64) -> Vec<bool> {
    match d % 8 {
        0 => vec![false; n], 1 => vec![true; n], 2 => (0..n).map(|_| r.one_in(50)).collect(), 3 => (0..n).map(|_| !r.one_in(50)).collect(),
        4 => { let k = 1 + r.below(200) as usize; (0..n).map(|i| i / k % 2 == 0).collect() }
        5 => { let k = r.below(n as u64 + 1) as usize; (0..n).map(|i| i >= k).collect() }
        6 => (0..n).map(|i| i + 1 == n || i == 0).collect(),
        // long stretches of zeroes, ones and noise
        7 if n > 300 && r.bool() => { let mut v = Vec::with_capacity(n + 1); while v.len() < n { let lim = if r.bool() { n as u64 / 2 } else { 1200 }; let k = 1 + r.below(lim) as usize; match r.below(4) { 0 => v.extend((0..k).map(|_| false)), 1 => v.extend((0..k).map(|_| true)), 2 => { let x = rand_bits(r, k.min(700)); v.extend(x) } _ => v.extend((0..k).map(|_| r.one_in(40))) } } v.truncate(n); v }
        _ => rand_bits(r, n),
    }
}

fn jac_b<B: Blk>(t: &T, p: &[u64]) {
    let n0 = p[2] as usize; let mut r = Rng::new(p[4]); let nb = B::W;
    const C: &[&str] = &["C06"];
    let block_kind = p[1] % 7;
    let n = if block_kind == 1 || block_kind == 2 { ceil(n0, nb) * nb } else { n0 };
    let m = density(&mut r, n, p[3]); let pre = prefix(&m);
    trace(|| format!("JacobsonRank over store kind {} with {} bits of {}: {}", block_kind, n, B::NAME, show(&m)));
    t.lib(&["C06", "C08"]);
    let dense = n <= 70000;
    macro_rules! go { ($store:expr, $back:expr) => {{ let st = $store; let back: fn(&_) -> Vec<bool> = $back; let rk = JacobsonRank::new(st);
        chk_rank(t, &rk, &m, &pre, C, &mut r, dense);
        t.lib(C);
        t.check(C, rk.bit_len() == n as u64 && (0..n.min(300)).all(|i| rk.get_bit(i as u64) == m[i]), || "bits read through the structure differ".into());
        t.check(C, back(rk.inner()) == m, || "inner() differs from the original".into());
        if t.tagged(&["C06"]) && n < 3000 { let rk2 = rk.clone(); chk_rank(t, &rk2, &m, &pre, C, &mut r, n < 700); t.lib(C); let s2 = rk2.into_inner(); t.check(C, back(&s2) == m, || "into_inner() differs from the original".into()); }
        if t.tagged(&["C08", "C18"]) { let s = BinSearchSelect::new(rk); chk_select(t, &s, &m, &pre, &mut r); if t.tagged(&["C18"]) { chk_rank(t, &s, &m, &pre, C, &mut r, false); }
            t.lib(&["C08"]); t.check(&["C08"], s.bit_len() == n as u64 && back(s.inner().inner()) == m, || "inner()".into()); let rk = s.into_inner(); t.check(&["C08"], back(&rk.into_inner()) == m, || "into_inner()".into()); }
    }} }
    fn rd<V: BitVec>(v: &V) -> Vec<bool> { (0..v.bit_len()).map(|i| v.get_bit(i)).collect() }
    match block_kind {
        1 => go!(blocks_of::<B>(&m), rd::<Vec<B>>),
        2 => { let v = blocks_of::<B>(&m); let sl: &[B] = &v; let rk = JacobsonRank::new(sl); chk_rank(t, &rk, &m, &pre, C, &mut r, dense); }
        3 => { let junk = r.next() | 1 << 63 | 1 << (nb - 1); go!(BlockOnly::<B>::new(&m, junk), rd::<BlockOnly<B>>) }
        4 if n <= 3000 => go!(BitOnly::<B>::new(&m), rd::<BitOnly<B>>),
        5 if n <= 3000 => go!(m.clone(), rd::<Vec<bool>>),
        6 => { let lead = r.below(2 * nb as u64 + 1) as usize; let tail = r.below(nb as u64 + 2) as usize; let mut big = rand_bits(&mut r, lead); big.extend_from_slice(&m); big.extend(vec![true; tail]); let v: BitVector<B> = bv_of(&big);
               let s = BitSlice::new(&v, lead as u64..(lead + n) as u64); let rk = JacobsonRank::new(s); chk_rank(t, &rk, &m, &pre, C, &mut r, dense); }
        _ => go!(bv_of::<B>(&m), rd::<BitVector<B>>),
    }
    t.lib(&[]);
}
pub fn jac(t: &T, p: &[u64]) {
    if p[1] == 99 { let n = p[2]; let w = p[3]; trace(|| format!("JacobsonRank over {} bits, every word {:x}", n, w)); t.lib(&["C06"]); let rk = JacobsonRank::new(Giant { n, w }); t.lib(&[]); giant::<u64, _>(t, &["C06"], n, w, &rk, p[4]); return; }
    disp!(p[0], jac_b(t, p)) }

/// more bits than fit in 32-bit counters, without the memory they would take: the same word again and again
struct Giant<B> { n: u64, w: B }
impl<B: Blk> BitVec for Giant<B> {
    type Block = B;
    fn bit_len(&self) -> u64 { self.n }
    fn get_block(&self, i: usize) -> B {
        let nb = B::nbits() as u64; assert!((i as u64) < (self.n + nb - 1) / nb);
        let left = self.n - i as u64 * nb;
        if left >= nb { self.w } else { B::of(self.w.u() & ((1u64 << left) - 1)) }
    }
}
fn giant<B: Blk, R: BitRankSupport>(t: &T, tags: &'static [&'static str], n: u64, w: B, rk: &R, seed: u64) {
    let nb = B::nbits() as u64; let mut r = Rng::new(seed); let c = w.u().count_ones() as u64;
    t.lib(tags);
    let mut at: Vec<u64> = vec![0, 1, n - 1, n - 2, n / 2];
    for k in [8, 9, 16, 31, 32, 33] { if k < 64 && 1u64 << k < n { at.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1]); } }
    for _ in 0..400 { at.push(r.below(n)); }
    for i in at { let e = (i + 1) / nb * c + ((w.u() as u128 & ((1u128 << ((i + 1) % nb)) - 1)) as u64).count_ones() as u64; let g = rk.rank1(i);
        t.check(tags, g == e, || format!("rank1({}) = {}, expected {} ({} bits)", i, g, e, n)); }
    t.lib(&[]);
}

pub fn r9(t: &T, p: &[u64]) {
    if p[0] == 99 { let n = p[1]; let w = p[2]; trace(|| format!("Rank9 over {} bits, every word {:x}", n, w)); t.lib(&["C07"]); let rk = Rank9::new(Giant { n, w }); t.lib(&[]); giant::<u64, _>(t, &["C07"], n, w, &rk, p[3]); return; }
    let n0 = p[1] as usize; let mut r = Rng::new(p[3]);
    const C: &[&str] = &["C07"];
    let kind = p[0] % 6; let n = if kind == 1 || kind == 2 { ceil(n0, 64) * 64 } else { n0 };
    let m = density(&mut r, n, p[2]); let pre = prefix(&m);
    trace(|| format!("Rank9 over store kind {} with {} bits: {}", kind, n, show(&m)));
    t.lib(&["C07", "C08"]);
    let dense = n <= 70000;
    fn rd<V: BitVec>(v: &V) -> Vec<bool> { (0..v.bit_len()).map(|i| v.get_bit(i)).collect() }
    macro_rules! go { ($store:expr, $back:expr) => {{ let st = $store; let back: fn(&_) -> Vec<bool> = $back; let rk = Rank9::new(st);
        chk_rank(t, &rk, &m, &pre, C, &mut r, dense);
        t.lib(C);
        t.check(C, rk.bit_len() == n as u64 && (0..n.min(300)).all(|i| rk.get_bit(i as u64) == m[i]), || "bits read through the structure differ".into());
        t.check(C, back(rk.inner()) == m, || "inner() differs from the original".into());
        if t.tagged(&["C07"]) && n < 3000 { let rk2 = rk.clone(); chk_rank(t, &rk2, &m, &pre, C, &mut r, n < 700); t.lib(C); let s2 = rk2.into_inner(); t.check(C, back(&s2) == m, || "into_inner() differs from the original".into()); }
        if t.tagged(&["C08", "C18"]) { let s = BinSearchSelect::new(rk); chk_select(t, &s, &m, &pre, &mut r); if t.tagged(&["C18"]) { chk_rank(t, &s, &m, &pre, C, &mut r, false); }
            t.lib(&["C08"]); t.check(&["C08"], s.bit_len() == n as u64 && back(s.inner().inner()) == m, || "inner()".into()); let rk = s.into_inner(); t.check(&["C08"], back(&rk.into_inner()) == m, || "into_inner()".into()); }
    }} }
    match kind {
        1 => go!(blocks_of::<u64>(&m), rd::<Vec<u64>>),
        2 => { let v = blocks_of::<u64>(&m); let sl: &[u64] = &v; let rk = Rank9::new(sl); chk_rank(t, &rk, &m, &pre, C, &mut r, dense); }
        3 => { let junk = r.next() | 1 << 63; go!(BlockOnly::<u64>::new(&m, junk), rd::<BlockOnly<u64>>) }
        4 => { let lead = r.below(129) as usize; let mut big = rand_bits(&mut r, lead); big.extend_from_slice(&m); big.extend([true; 70]); let v: BitVector<u64> = bv_of(&big);
               let s = BitSlice::new(&v, lead as u64..(lead + n) as u64); let rk = Rank9::new(s); chk_rank(t, &rk, &m, &pre, C, &mut r, dense); }
        5 if n <= 3000 => go!(BitOnly::<u64>::new(&m), rd::<BitOnly<u64>>),
        _ => go!(bv_of::<u64>(&m), rd::<BitVector<u64>>),
    }
    t.lib(&[]);
}

/// a user's rank structure over symbols
struct Sym { s: Vec<u8> }
impl RankSupport for Sym { type Over = u8; fn rank(&self, p: u64, v: u8) -> u64 { assert!(p < self.s.len() as u64); self.s[..=p as usize].iter().filter(|x| **x == v).count() as u64 } fn limit(&self) -> u64 { self.s.len() as u64 } }
/// a rank structure of huge, sparse content, computed
struct Sparse { n: u64, pos: Vec<u64> }
impl RankSupport for Sparse { type Over = bool; fn rank(&self, p: u64, v: bool) -> u64 { assert!(p < self.n, "rank past the limit"); let k = self.pos.partition_point(|x| *x <= p) as u64; if v { k } else { p + 1 - k } } fn limit(&self) -> u64 { self.n } }
impl BitRankSupport for Sparse {}

pub fn sel(t: &T, p: &[u64]) {
    const C: &[&str] = &["C08"]; let mut r = Rng::new(p[2]);
    t.lib(C);
    match p[0] % 4 {
        0 => { let n = p[1] as usize; let k = 1 + r.below(5); let s: Vec<u8> = (0..n).map(|_| r.below(k) as u8).collect(); let ss = BinSearchSelect::new(Sym { s: s.clone() });
            for sym in 0..k as u8 + 1 { let pos: Vec<u64> = (0..n).filter(|i| s[*i] == sym).map(|i| i as u64).collect();
                for i in (0..pos.len() as u64 + 2).chain([u64::MAX, u64::MAX - 1, n as u64]) { let e = pos.get(i as usize).copied().filter(|_| i < pos.len() as u64); let g = ss.select(i, sym); t.check(C, g == e, || format!("select({}, {}) = {:?}, expected {:?} in {:?}", i, sym, g, e, s)); }
                for i in 0..n { let e = s[..=i].iter().filter(|x| **x == sym).count() as u64; t.check(C, ss.rank(i as u64, sym) == e, || format!("rank({}, {}) through select", i, sym)); } }
            t.check(C, ss.limit() == n as u64, || "limit()".into()); }
        1 => { let x = r.word(); let b = broadword::Broadword(x); let ss = BinSearchSelect::new(broadword::Broadword(x)); let pos: Vec<u64> = (0..64).filter(|i| x >> i & 1 == 1).collect(); let zer: Vec<u64> = (0..64).filter(|i| x >> i & 1 == 0).collect();
            for i in (0..66).chain([u64::MAX, u64::MAX - 1, 72, 128, 255, 256, 1 << 32]) { let e = pos.get(i as usize).copied().filter(|_| i < 64); let g = ss.select1(i); t.check(C, g == e, || format!("select1({}) of {:#x} = {:?}, expected {:?}", i, x, g, e)); let g = b.select1(i); t.check(&["C08", "C09"], g == e, || format!("Broadword({:#x}).select1({}) = {:?}, expected {:?}", x, i, g, e)); let e = zer.get(i as usize).copied().filter(|_| i < 64); let g = ss.select0(i); t.check(C, g == e, || format!("select0({}) of {:#x} = {:?}, expected {:?}", i, x, g, e)); } }
        2 => { // prims
            fn one<B: Blk>(t: &T, x: u64) { const C: &[&str] = &["C08"]; let x = x & mask(B::W); let m: Vec<bool> = (0..B::W).map(|i| x >> i & 1 == 1).collect(); let pre = prefix(&m); let s = BinSearchSelect::new(B::of(x)); let mut r = Rng::new(x); let _ = C; chk_select(t, &s, &m, &pre, &mut r); }
            let w = r.word(); disp!(p[1], one(t, w)) }
        _ => { let n = match r.below(4) { 0 => u64::MAX, 1 => u64::MAX - r.below(5), 2 => 1 << 63, _ => r.next() | 1 }; let k = r.below(20); let mut pos: Vec<u64> = (0..k).map(|_| match r.below(3) { 0 => r.below(n), 1 => n - 1 - r.below(n.min(5)), _ => r.below(n.min(5)) }).collect(); pos.sort(); pos.dedup();
            let ss = BinSearchSelect::new(Sparse { n, pos: pos.clone() });
            trace(|| format!("{} bits, ones at {:?}", n, pos));
            for i in (0..pos.len() as u64 + 2).chain([u64::MAX, u64::MAX - 1]) { let e = pos.get(i as usize).copied().filter(|_| i < pos.len() as u64); let g = ss.select1(i); t.check(C, g == e, || format!("select1({}) = {:?}, expected {:?}", i, g, e)); let g = ss.select(i, true); t.check(C, g == e, || format!("select({}, true) = {:?}, expected {:?}", i, g, e)); }
            let nz = n - pos.len() as u64;
            for i in [0, 1, 2, nz / 2, nz.wrapping_sub(1), nz.wrapping_sub(2), nz, nz.wrapping_add(1), u64::MAX, r.below(nz.max(1)), r.below(nz.max(1))] {
                let e = if i < nz { let mut q = i; for x in &pos { if *x <= q { q += 1; } } Some(q) } else { None };
                let g = ss.select0(i); t.check(C, g == e, || format!("select0({}) = {:?}, expected {:?}", i, g, e)); } }
    }
    t.lib(&[]);
}

pub fn bw(t: &T, p: &[u64]) {
    const C: &[&str] = &["C09"];
    let (x, y) = (p[0], p[1]);
    t.lib(C);
    let g = broadword::count_ones(x); t.check(C, g == x.count_ones() as usize, || format!("count_ones({:#x}) = {}", x, g));
    let pos: Vec<usize> = (0..64).filter(|i| x >> i & 1 == 1).collect();
    for r in (0..66usize).chain([71, 72, 73, 100, 127, 128, 129, 255, 256, 257, 320, 512, 1 << 32, (1 << 32) + 1, 1 << 56, 1 << 63, usize::MAX, usize::MAX - 1, (y % 1000) as usize, y as usize]) {
        let e = if r < 64 { pos.get(r).copied() } else { None };
        let g = broadword::select1(r, x); t.check(C, g == e, || format!("select1({}, {:#x}) = {:?}, expected {:?}", r, x, g, e));
        let g = broadword::select1_raw(r, x); t.check(C, g == e.unwrap_or(72), || format!("select1_raw({}, {:#x}) = {}, expected {:?} (72 when absent)", r, x, g, e));
        let g = broadword::Broadword(x).select1(r as u64); t.check(C, g == e.map(|v| v as u64), || format!("Broadword({:#x}).select1({}) = {:?}", x, r, g));
    }
    let b = broadword::Broadword(x);
    for i in 0..64u64 { let e = (x & mask(i as usize + 1)).count_ones() as u64; t.check(C, b.rank1(i) == e && b.rank(i, true) == e && b.rank0(i) == i + 1 - e && b.rank(i, false) == i + 1 - e, || format!("Broadword({:#x}) rank at {}: {} / {}", x, i, b.rank1(i), b.rank0(i))); }
    t.check(C, b.limit() == 64, || "limit".into());
    let bx = x.to_le_bytes(); let by = y.to_le_bytes();
    let (mut ule, mut le, mut nz) = (0u64, 0u64, 0u64);
    for i in 0..8 { if bx[i] <= by[i] { ule |= 0x80 << (8 * i); } if bx[i] as i8 <= by[i] as i8 { le |= 0x80 << (8 * i); } if bx[i] != 0 { nz |= 0x80 << (8 * i); } }
    let g = broadword::u_le8(x, y); t.check(C, g == ule, || format!("u_le8({:#x}, {:#x}) = {:#x}, expected {:#x}", x, y, g, ule));
    let g = broadword::le8(x, y); t.check(C, g == le, || format!("le8({:#x}, {:#x}) = {:#x}, expected {:#x}", x, y, g, le));
    let g = broadword::u_nz8(x); t.check(C, g == nz, || format!("u_nz8({:#x}) = {:#x}, expected {:#x}", x, g, nz));
    t.check(C, broadword::L8 == 0x0101_0101_0101_0101 && broadword::H8 == 0x8080_8080_8080_8080, || "L8/H8".into());
    t.lib(&[]);
    for q in [64u64, 65, 127, 128, 1 << 32, u64::MAX] { t.must_panic(&["C18"], || format!("Broadword.rank1({})", q), || b.rank1(q)); t.must_panic(&["C18"], || format!("Broadword.rank0({})", q), || b.rank0(q)); t.must_panic(&["C18"], || format!("Broadword.rank({}, false)", q), || b.rank(q, false)); }
}
