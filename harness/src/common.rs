use crate::fw::*;
use std::hash::{Hash, Hasher};
use succinct::bit_vec::*;
use succinct::storage::BlockType;
use num_traits::{NumCast, ToPrimitive};

pub trait Blk: BlockType + BitVecMut<Block = Self> + Hash + Default + 'static { const W: usize; const NAME: &'static str; fn of(x: u64) -> Self; fn u(self) -> u64; }
macro_rules! blk { ($($t:ident),*) => { $( impl Blk for $t { const W: usize = 8 * std::mem::size_of::<$t>(); const NAME: &'static str = stringify!($t); fn of(x: u64) -> Self { x as $t } fn u(self) -> u64 { self as u64 } } )* } }
blk!(u8, u16, u32, u64, usize);

#[macro_export]
macro_rules! disp { ($k:expr, $f:ident ( $($a:expr),* )) => { match $k % 5 { 0 => $f::<u8>($($a),*), 1 => $f::<u16>($($a),*), 2 => $f::<u32>($($a),*), 3 => $f::<u64>($($a),*), _ => $f::<usize>($($a),*) } } }

pub fn mask(n: usize) -> u64 { if n >= 64 { !0 } else { (1u64 << n) - 1 } }
/// bits m[start..start+n], little-endian
pub fn word_of(m: &[bool], start: usize, n: usize) -> u64 { let mut r = 0; for i in 0..n { if m[start + i] { r |= 1 << i; } } r }
pub fn b64<B: BlockType>(b: B) -> u64 { b.to_u64().expect("block fits in u64") }
pub fn bof<B: BlockType>(x: u64) -> B { let nb = 8 * std::mem::size_of::<B>(); <B as NumCast>::from(x & mask(nb)).expect("fits") }
pub fn ceil(a: usize, b: usize) -> usize { (a + b - 1) / b }

#[derive(Default)]
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); self.0.push(0xfe); } }
pub fn hashed<X: Hash>(x: &X) -> Vec<u8> { let mut h = Rec::default(); x.hash(&mut h); h.0 }

/// lengths clustered around block boundaries
pub fn near_len(r: &mut Rng, nb: usize, max: usize) -> usize {
    let x = match r.below(6) {
        0 => r.below(4) as usize,
        1 | 2 | 3 => (r.below((max / nb + 1) as u64) as usize * nb + r.below(3) as usize).saturating_sub(1),
        _ => r.below(max as u64 + 1) as usize,
    };
    x.min(max)
}
pub fn rand_bits(r: &mut Rng, n: usize) -> Vec<bool> {
    match r.below(12) {
        0 => return (0..n).map(|_| r.one_in(16)).collect(),
        1 => return (0..n).map(|_| !r.one_in(16)).collect(),
        k @ (2 | 3) => { let mut v = vec![k == 3; n]; if n > 0 { for _ in 0..1 + r.below(3) { let i = r.below(n as u64) as usize; v[i] = k == 2; } } return v; }
        // only the end, or only the beginning
        k @ (4 | 5) => { let c = r.below(n as u64 + 1) as usize; return (0..n).map(|i| (i < c) == (k == 4) && r.bool()).collect(); }
        6 if n > 0 => { let c = 1 + r.below(n.min(140) as u64) as usize; return (0..n).map(|i| (n - i <= c) == r.bool()).collect(); }
        _ => {}
    }
    let mut v = Vec::with_capacity(n + 64);
    while v.len() < n { let w = r.word(); let k = if r.one_in(4) { 1 + r.below(64) as usize } else { 64 }; for i in 0..k { v.push(w >> i & 1 == 1); } }
    v.truncate(n);
    v
}
pub fn bv_of<B: Blk>(m: &[bool]) -> BitVector<B> { let mut v = BitVector::new(); for &b in m { v.push_bit(b); } v }
pub fn blocks_of<B: Blk>(m: &[bool]) -> Vec<B> { let mut v = Vec::new(); let mut i = 0; while i < m.len() { let n = B::W.min(m.len() - i); v.push(B::of(word_of(m, i, n))); i += n; } v }
pub fn show(m: &[bool]) -> String { let n = m.len().min(256); let mut s: String = m[..n].iter().map(|b| if *b { '1' } else { '0' }).collect(); if n < m.len() { s.push_str("..."); } s }

/// A user's type that supplies only bit access.
#[derive(Clone, Debug)]
pub struct BitOnly<B> { pub bits: Vec<bool>, pub p: std::marker::PhantomData<B> }
impl<B> BitOnly<B> { pub fn new(m: &[bool]) -> Self { BitOnly { bits: m.to_vec(), p: std::marker::PhantomData } } }
impl<B: Blk> BitVec for BitOnly<B> { type Block = B; fn bit_len(&self) -> u64 { self.bits.len() as u64 } fn get_bit(&self, i: u64) -> bool { self.bits[i as usize] } }
impl<B: Blk> BitVecMut for BitOnly<B> { fn set_bit(&mut self, i: u64, v: bool) { self.bits[i as usize] = v; } }
impl<B: Blk> BitVecPush for BitOnly<B> { fn push_bit(&mut self, v: bool) { self.bits.push(v) } fn pop_bit(&mut self) -> Option<bool> { self.bits.pop() } }

/// A user's type that supplies only block access; bits past the end are garbage.
#[derive(Clone, Debug)]
pub struct BlockOnly<B> { pub blocks: Vec<B>, pub len: u64 }
impl<B: Blk> BlockOnly<B> {
    pub fn new(m: &[bool], junk: u64) -> Self {
        let mut blocks = blocks_of::<B>(m);
        if m.len() % B::W != 0 { let l = blocks.len() - 1; blocks[l] = B::of(blocks[l].u() | (junk & !mask(m.len() % B::W))); }
        BlockOnly { blocks, len: m.len() as u64 }
    }
}
impl<B: Blk> BitVec for BlockOnly<B> { type Block = B; fn bit_len(&self) -> u64 { self.len } fn get_block(&self, i: usize) -> B { self.blocks[i] } }
impl<B: Blk> BitVecMut for BlockOnly<B> { fn set_block(&mut self, i: usize, v: B) { self.blocks[i] = v; } }

fn spans(t: &T, n: usize, nb: usize, r: &mut Rng) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let _ = t;
    if n <= 40 || (n <= 140 && nb <= 64 && r.one_in(8)) {
        for s in 0..=n { for c in 0..=nb.min(n - s) { v.push((s, c)); } }
        if v.len() > 900 { let k = v.len() / 500; let o = r.below(k as u64) as usize; v = v.into_iter().skip(o).step_by(k).collect(); }
    } else {
        for _ in 0..60 {
            let c = match r.below(4) { 0 => nb, 1 => nb - 1, _ => r.below(nb as u64 + 1) as usize }.min(n);
            let s = match r.below(3) { 0 => n - c, 1 => (near_len(r, nb, n)).min(n - c), _ => r.below((n - c) as u64 + 1) as usize };
            v.push((s, c));
        }
        v.push((n - n.min(nb), n.min(nb)));
    }
    v
}

/// Every way of reading agrees with the model.
pub fn chk_read<V: BitVec + ?Sized>(t: &T, v: &V, m: &[bool], tags: &'static [&'static str], seed: u64) {
    let nb = 8 * std::mem::size_of::<V::Block>();
    let mut r = Rng::new(seed ^ 0x51);
    t.lib(tags);
    let n = m.len();
    t.check(tags, v.bit_len() == n as u64, || format!("bit_len() = {} but {} bits expected", v.bit_len(), n));
    t.check(tags, v.block_len() == ceil(n, nb), || format!("block_len() = {} for {} bits of {}-bit blocks", v.block_len(), n, nb));
    for i in 0..n { t.check(tags, v.get_bit(i as u64) == m[i], || format!("get_bit({}) = {} in {} (length {})", i, !m[i], show(m), n)); }
    for i in 0..ceil(n, nb) {
        let k = nb.min(n - i * nb);
        let e = word_of(m, i * nb, k);
        let g = b64(v.get_block(i));
        t.check(tags, g & mask(k) == e, || format!("get_block({}) = {:#x}, low {} bits should be {:#x}; bits {}", i, g, k, e, show(m)));
    }
    for (s, c) in spans(t, n, nb, &mut r) {
        let e = word_of(m, s, c);
        let g = b64(v.get_bits(s as u64, c));
        t.check(tags, g == e, || format!("get_bits({}, {}) = {:#x}, expected {:#x}; length {}, {}-bit blocks, bits {}", s, c, g, e, n, nb, show(m)));
    }
    t.lib(&[]);
}

/// positions and counts whose span leaves 0..n
pub fn bad_spans(n: u64, nb: usize, r: &mut Rng) -> Vec<(u64, usize)> {
    let mut v = vec![(n, 1), (n + 1, 1), (n + 1, 0), (u64::MAX, 1), (u64::MAX, nb), (u64::MAX - 1, 2.min(nb)), (u64::MAX - nb as u64 + 1, nb), (1u64 << 63, 1), (u64::MAX, 0)];
    for k in 1..=nb { if r.one_in(4) || k == nb { v.push((0u64.wrapping_sub(k as u64), nb)); v.push((0u64.wrapping_sub(k as u64), k)); } }
    for c in 1..=nb as u64 { if c > n { if r.one_in(3) { v.push((0, c as usize)); } } else if r.one_in(3) || c == nb as u64 { v.push((n - c + 1, c as usize)); } }
    v
}

pub fn chk_oob_read<V: BitVec + ?Sized>(t: &T, v: &V, m: &[bool], seed: u64) {
    const C: &[&str] = &["C18"];
    let nb = 8 * std::mem::size_of::<V::Block>();
    let n = m.len() as u64;
    let mut r = Rng::new(seed ^ 0x77);
    if t.tagged(&["C23"]) { for c in nb + 1..=(nb + 3).max(2 * nb) { if c as u64 <= n && (c < nb + 4 || r.one_in(8)) { let s = r.below(n - c as u64 + 1);
        t.must_panic(&["C23"], || format!("get_bits({}, {}) with {}-bit blocks, of a vector of {} bits", s, c, nb, n), || v.get_bits(s, c)); } } }
    if !t.tagged(C) { return; }
    let up = ceil(m.len(), nb) as u64 * nb as u64;
    for p in [n, n + 1, n + 2, up, up.saturating_sub(1).max(n), up + 1, n + nb as u64, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, (1u64 << 32) + n.saturating_sub(1), u64::MAX - n, 0u64.wrapping_sub(n.max(1))] {
        if p >= n { t.must_panic(C, || format!("get_bit({}) of a vector of {} bits", p, n), || v.get_bit(p)); }
    }
    for (s, c) in bad_spans(n, nb, &mut r) { t.must_panic(C, || format!("get_bits({}, {}) of a vector of {} bits", s, c, n), || v.get_bits(s, c)); }
    let bl = ceil(m.len(), nb);
    for p in [bl, bl + 1, bl + 7, usize::MAX, usize::MAX / nb, usize::MAX / nb + 1, 1 << 58, 1 << 61] {
        if p >= bl { t.must_panic(C, || format!("get_block({}) of a vector of {} blocks", p, bl), || v.get_block(p)); }
    }
}

/// Writes: exactly the named bits change. Returns the model after some writes.
pub fn chk_write<V: BitVecMut + ?Sized>(t: &T, v: &mut V, m: &mut Vec<bool>, tags: &'static [&'static str], seed: u64, nops: usize) {
    let nb = 8 * std::mem::size_of::<V::Block>();
    let mut r = Rng::new(seed ^ 0x99);
    let n = m.len();
    for k in 0..nops {
        t.lib(tags);
        let val = r.word();
        match r.below(3) {
            0 if n > 0 => { let p = if r.bool() { near_len(&mut r, nb, n - 1) } else { r.below(n as u64) as usize }; let b = val & 1 == 1; trace(|| format!("set_bit({}, {})", p, b)); v.set_bit(p as u64, b); m[p] = b; }
            1 if n > 0 => { let nbk = ceil(n, nb); let p = if r.one_in(3) { nbk - 1 } else { r.below(nbk as u64) as usize }; trace(|| format!("set_block({}, {:#x})", p, val & mask(nb))); v.set_block(p, bof(val)); for i in 0..nb.min(n - p * nb) { m[p * nb + i] = val >> i & 1 == 1; } }
            _ => { let c = match r.below(4) { 0 => nb, 1 => nb - 1, _ => r.below(nb as u64 + 1) as usize }.min(n); let s = match r.below(3) { 0 => n - c, 1 => near_len(&mut r, nb, n).min(n - c), _ => r.below((n - c) as u64 + 1) as usize };
                trace(|| format!("set_bits({}, {}, {:#x})", s, c, val & mask(nb))); v.set_bits(s as u64, c, bof(val)); for i in 0..c { m[s + i] = val >> i & 1 == 1; } }
        }
        if n <= 200 || k + 1 == nops || r.one_in(8) {
            t.check(tags, v.bit_len() == n as u64, || format!("a write changed bit_len() from {} to {}", n, v.bit_len()));
            for i in 0..n { t.check(tags, v.get_bit(i as u64) == m[i], || format!("after the write bit {} reads {}; expected bits {}", i, !m[i], show(m))); }
        }
    }
    t.lib(&[]);
}

pub fn chk_oob_write<V: BitVecMut + ?Sized>(t: &T, v: &mut V, m: &[bool], seed: u64) {
    const C: &[&str] = &["C18"];
    let nb = 8 * std::mem::size_of::<V::Block>();
    let n = m.len() as u64;
    let mut r = Rng::new(seed ^ 0x78);
    if t.tagged(&["C23"]) { for c in nb + 1..=(nb + 3).max(2 * nb) { if c as u64 <= n && (c < nb + 4 || r.one_in(8)) { let s = r.below(n - c as u64 + 1);
        t.must_panic(&["C23"], || format!("set_bits({}, {}, ..) with {}-bit blocks, of a vector of {} bits", s, c, nb, n), || v.set_bits(s, c, bof(r.next())));
        for i in 0..m.len() { t.check(&["C23"], v.get_bit(i as u64) == m[i], || format!("bit {} changed by a refused set_bits({}, {}, ..)", i, s, c)); } } } }
    if !t.tagged(C) { return; }
    let val: V::Block = bof(r.next());
    let flip: V::Block = bof(!0);
    let up = ceil(m.len(), nb) as u64 * nb as u64;
    for p in [n, n + 1, up, up.saturating_sub(1).max(n), up + 1, n + nb as u64, u64::MAX, 1 << 63, 0u64.wrapping_sub(n.max(1))] {
        if p >= n { for b in [false, true] { t.must_panic(C, || format!("set_bit({}, {}) of a vector of {} bits", p, b, n), || v.set_bit(p, b)); } }
    }
    for (s, c) in bad_spans(n, nb, &mut r) {
        let x = if r.bool() { val } else { flip };
        t.must_panic(C, || format!("set_bits({}, {}, ..) of a vector of {} bits", s, c, n), || v.set_bits(s, c, x));
        if r.one_in(4) { for i in 0..m.len() { t.check(C, v.get_bit(i as u64) == m[i], || format!("bit {} changed by a refused set_bits({}, {}, ..)", i, s, c)); } }
    }
    let bl = ceil(m.len(), nb);
    for p in [bl, bl + 1, usize::MAX, usize::MAX / nb, usize::MAX / nb + 1, 1 << 58, 1 << 61] {
        if p >= bl { t.must_panic(C, || format!("set_block({}, ..) of a vector of {} blocks", p, bl), || v.set_block(p, val)); }
    }
    t.check(C, v.bit_len() == n, || format!("a refused write changed the length from {} to {}", n, v.bit_len()));
    for i in 0..m.len() { t.check(C, v.get_bit(i as u64) == m[i], || format!("bit {} changed by a refused write", i)); }
}
pub fn _use<B: BlockType>(b: B) -> Option<u64> { b.to_u64() }
