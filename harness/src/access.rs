//! Span and block access of every implementer; slices; out-of-bounds access.
use crate::common::*;
use crate::fw::*;
use crate::disp;
use succinct::bit_vec::*;
use succinct::int_vec::*;
use succinct::rank::*;
use succinct::select::*;
use succinct::stream::BitBuffer;
use succinct::storage::BlockType;

const C4: &[&str] = &["C04"];

fn rw<V: BitVecMut + ?Sized>(t: &T, v: &mut V, m: &mut Vec<bool>, tags: &'static [&'static str], seed: u64, nops: usize) {
    chk_read(t, v, m, tags, seed);
    chk_write(t, v, m, tags, seed, nops);
    chk_read(t, v, m, tags, seed + 1);
    chk_oob_read(t, v, m, seed);
    chk_oob_write(t, v, m, seed);
}

pub const NKIND: u64 = 17;

fn access_b<B: Blk>(t: &T, p: &[u64]) {
    let mut r = Rng::new(p[3]); let n = p[2] as usize; let nb = B::W; let seed = p[3]; let nops = 20;
    let up = ceil(n, nb) * nb;
    match p[1] % NKIND {
        0 => { let mut m = rand_bits(&mut r, up); let mut v: Vec<B> = blocks_of(&m); rw(t, &mut v, &mut m, C4, seed, nops); t.check(C4, v == blocks_of::<B>(&m), || "Vec contents differ".into()); }
        1 => { let mut m = rand_bits(&mut r, up); let mut v: Vec<B> = blocks_of(&m); rw(t, &mut v[..], &mut m, C4, seed, nops); t.check(C4, v == blocks_of::<B>(&m), || "slice contents differ".into()); }
        2 => { let m = rand_bits(&mut r, up); let v: Vec<B> = blocks_of(&m); let s: &[B] = &v; chk_read(t, &s, &m, C4, seed); chk_oob_read(t, &s, &m, seed); }
        3 => { let mut m = rand_bits(&mut r, up); let mut v: Vec<B> = blocks_of(&m); { let mut s: &mut [B] = &mut v; rw(t, &mut s, &mut m, C4, seed, nops); } t.check(C4, v == blocks_of::<B>(&m), || "slice contents differ".into()); }
        4 => { let mut m = rand_bits(&mut r, n); let mut v: Vec<bool> = m.clone(); rw(t, &mut v, &mut m, C4, seed, nops); t.check(C4, v == m, || "Vec<bool> contents differ".into()); }
        5 => { let mut m = rand_bits(&mut r, n); let mut v: BitVector<B> = bv_of(&m); rw(t, &mut v, &mut m, C4, seed, nops); }
        6 => { let k = 1 + r.below(nb as u64) as usize; let e = n / k; let mut m = rand_bits(&mut r, e * k); let mut v: IntVector<B> = IntVector::new(k); for i in 0..e { v.push(B::of(word_of(&m, i * k, k))); } rw(t, &mut v, &mut m, C4, seed, nops); }
        7 => { let mut m = rand_bits(&mut r, n); let mut v: BitOnly<B> = BitOnly::new(&m); rw(t, &mut v, &mut m, C4, seed, nops); }
        8 => { let m0 = rand_bits(&mut r, n); let mut m = m0; let junk = r.next(); let mut v: BlockOnly<B> = BlockOnly::new(&m, junk);
               rw(t, &mut v, &mut m, C4, seed, nops); }
        9 => { let mut m = rand_bits(&mut r, n); let mut v = BitBuffer::from(bv_of::<B>(&m)); rw(t, &mut v, &mut m, C4, seed, nops); t.check(C4, v.position() == 0, || "access moved the cursor".into()); }
        10 => { let m = rand_bits(&mut r, n); let v = JacobsonRank::new(bv_of::<B>(&m)); chk_read(t, &v, &m, &["C04", "C06"], seed); chk_oob_read(t, &v, &m, seed); let w = BinSearchSelect::new(v); chk_read(t, &w, &m, &["C04", "C08"], seed); chk_oob_read(t, &w, &m, seed); }
        11 => { let m = rand_bits(&mut r, n); let v = Rank9::new(bv_of::<u64>(&m)); chk_read(t, &v, &m, &["C04", "C07"], seed); chk_oob_read(t, &v, &m, seed); let w = BinSearchSelect::new(v); chk_read(t, &w, &m, &["C04", "C08"], seed); chk_oob_read(t, &w, &m, seed); }
        12 => { let w = r.word(); let mut m: Vec<bool> = (0..nb).map(|i| w >> i & 1 == 1).collect(); let mut v = B::of(w); rw(t, &mut v, &mut m, &["C04", "C10"], seed, nops); t.check(&["C04", "C10"], v.u() == word_of(&m, 0, nb), || "primitive differs".into()); }
        13 => { // the pushing defaults of a user's type
                let mut m = rand_bits(&mut r, n); let mut v: BitOnly<B> = BitOnly::new(&m); const CP: &[&str] = &["C01", "C04"];
                for _ in 0..4 { t.lib(CP); if r.bool() { let b = r.bool(); trace(|| format!("align_block({}) at {}", b, m.len())); v.align_block(b); while m.len() % nb != 0 { m.push(b); } }
                    else { let w = r.word(); trace(|| format!("push_block({:#x}) at {}", w & mask(nb), m.len())); v.push_block(B::of(w)); while m.len() % nb != 0 { m.push(false); } for i in 0..nb { m.push(w >> i & 1 == 1); } }
                    t.check(CP, v.bits == m, || format!("bits {} expected {}", show(&v.bits), show(&m)));
                    let g = v.pop_bit(); t.check(CP, g == m.pop(), || "pop_bit".into()); if r.bool() { let b = r.bool(); v.push_bit(b); m.push(b); } } }
        14 => { let mut m = rand_bits(&mut r, n); let mut v: Vec<bool> = m.clone(); const CP: &[&str] = &["C01", "C04"]; t.lib(CP);
                for _ in 0..4 { match r.below(4) { 0 => { let b = r.bool(); v.align_block(b); while m.len() % 8 != 0 { m.push(b); } } 1 => { let w = r.word(); v.push_block(w as u8); while m.len() % 8 != 0 { m.push(false); } for i in 0..8 { m.push(w >> i & 1 == 1); } } 2 => { let b = r.bool(); v.push_bit(b); m.push(b); } _ => { let g = v.pop_bit(); t.check(CP, g == m.pop(), || "pop_bit".into()); } }
                    t.check(CP, v == m, || format!("bits {} expected {}", show(&v), show(&m))); } }
        15 => { let m = rand_bits(&mut r, n); let v = JacobsonRank::new(BitOnly::<B>::new(&m)); chk_read(t, &v, &m, &["C04", "C06"], seed); chk_oob_read(t, &v, &m, seed); }
        _ => { let m = rand_bits(&mut r, n); let junk = r.next(); let v = BinSearchSelect::new(JacobsonRank::new(BlockOnly::<B>::new(&m, junk))); chk_read(t, &v, &m, &["C04", "C06", "C08"], seed); }
    }
}
pub fn access(t: &T, p: &[u64]) { disp!(p[0], access_b(t, p)) }

// ---------------------------------------------------------------- slices
const C5: &[&str] = &["C05"];

fn mkslice<'a, V: BitVec + ?Sized>(v: &'a V, a: u64, b: u64, n: u64, how: u64) -> BitSlice<'a, V> {
    match how % 4 {
        1 if a == 0 => BitSlice::new(v, ..b),
        2 if b == n => BitSlice::new(v, a..),
        3 if a == 0 && b == n => BitSlice::new(v, ..),
        _ => BitSlice::new(v, a..b),
    }
}
fn reslice<'a, V: BitVec + ?Sized>(s: &BitSlice<'a, V>, a: u64, b: u64, n: u64, how: u64) -> BitSlice<'a, V> {
    match how % 4 {
        1 if a == 0 => s.slice(..b),
        2 if b == n => s.slice(a..),
        3 if a == 0 && b == n => s.slice(..),
        _ => s.slice(a..b),
    }
}
fn pick(r: &mut Rng, n: usize, nb: usize) -> (usize, usize) {
    match r.below(5) {
        0 => (0, near_len(r, nb, n)),
        1 => { let a = near_len(r, nb, n); (a, n) }
        2 => (0, n),
        _ => { let a = if r.bool() { near_len(r, nb, n) } else { r.below(n as u64 + 1) as usize }; let b = a + if r.bool() { near_len(r, nb, n - a) } else { r.below((n - a) as u64 + 1) as usize }; (a, b) }
    }
}

fn slice_read<V: BitVec + ?Sized>(t: &T, v: &V, m: &[bool], r: &mut Rng, seed: u64) {
    let nb = 8 * std::mem::size_of::<V::Block>(); let n = m.len();
    t.lib(C5);
    let (a, b) = pick(r, n, nb);
    trace(|| format!("BitSlice::new({}..{}) of {} bits", a, b, n));
    let s = mkslice(v, a as u64, b as u64, n as u64, r.next());
    chk_read(t, &s, &m[a..b], C5, seed);
    chk_oob_read(t, &s, &m[a..b], seed);
    t.lib(C5);
    let (c, d) = pick(r, b - a, nb);
    trace(|| format!(".slice({}..{})", c, d));
    let s2 = reslice(&s, c as u64, d as u64, (b - a) as u64, r.next());
    chk_read(t, &s2, &m[a + c..a + d], C5, seed + 3);
    chk_oob_read(t, &s2, &m[a + c..a + d], seed);
    t.lib(C5);
    let (e, f) = pick(r, d - c, nb);
    trace(|| format!("BitSlice::new(&slice, {}..{})", e, f));
    let s3 = mkslice(&s2, e as u64, f as u64, (d - c) as u64, r.next());
    chk_read(t, &s3, &m[a + c + e..a + c + f], C5, seed + 5);
    t.lib(&[]);
    for x in [n as u64 + 1, n as u64 + nb as u64, u64::MAX] {
        t.must_panic(C5, || format!("BitSlice::new(0..{}) of {} bits", x, n), || BitSlice::new(v, 0..x).bit_len());
        t.must_panic(C5, || format!("BitSlice::new(..{}) of {} bits", x, n), || BitSlice::new(v, ..x).bit_len());
        t.must_panic(C5, || format!("BitSlice::new({}..{}) of {} bits", a, x, n), || BitSlice::new(v, a as u64..x).bit_len());
    }
    for x in [(b - a) as u64 + 1, (n as u64).max((b - a) as u64 + 1), u64::MAX] {
        t.must_panic(C5, || format!("slice({}..{}) of a slice of {} bits", c, x, b - a), || s.slice(c as u64..x).bit_len());
        t.must_panic(C5, || format!("slice(..{}) of a slice of {} bits", x, b - a), || s.slice(..x).bit_len());
    }
}

fn slice_write<V: BitVecMut>(t: &T, v: &mut V, m: &mut Vec<bool>, r: &mut Rng, seed: u64) {
    let nb = 8 * std::mem::size_of::<V::Block>(); let n = m.len();
    let (a, b) = pick(r, n, nb);
    t.lib(C5);
    trace(|| format!("BitSliceMut::new({}..{}) of {} bits", a, b, n));
    {
        let mut w = m[a..b].to_vec();
        let how = r.next();
        let mut s = match how % 4 { 1 if a == 0 => BitSliceMut::new(v, ..b as u64), 2 if b == n => BitSliceMut::new(v, a as u64..), 3 if a == 0 && b == n => BitSliceMut::new(v, ..), _ => BitSliceMut::new(v, a as u64..b as u64) };
        chk_read(t, &s, &w, C5, seed);
        chk_oob_read(t, &s, &w, seed);
        let (c, d) = pick(r, b - a, nb);
        t.lib(C5);
        trace(|| format!(".slice({}..{})", c, d));
        { let q = match r.below(4) { 1 if c == 0 => s.slice(..d as u64), 2 if d == b - a => s.slice(c as u64..), _ => s.slice(c as u64..d as u64) }; chk_read(t, &q, &w[c..d], C5, seed + 1); }
        chk_write(t, &mut s, &mut w, C5, seed + 2, 12);
        chk_oob_write(t, &mut s, &w, seed);
        t.lib(C5);
        trace(|| format!(".slice_mut({}..{})", c, d));
        { let mut x = w[c..d].to_vec(); let mut q = match r.below(4) { 1 if c == 0 => s.slice_mut(..d as u64), 2 if d == b - a => s.slice_mut(c as u64..), _ => s.slice_mut(c as u64..d as u64) };
          chk_read(t, &q, &x, C5, seed + 4); chk_write(t, &mut q, &mut x, C5, seed + 3, 12); chk_read(t, &q, &x, C5, seed + 4); chk_oob_write(t, &mut q, &x, seed);
          w[c..d].copy_from_slice(&x); }
        chk_read(t, &s, &w, C5, seed + 6);
        for x in [(b - a) as u64 + 1, u64::MAX] {
            t.must_panic(C5, || format!("slice_mut({}..{}) of a slice of {} bits", c, x, b - a), || s.slice_mut(c as u64..x).bit_len());
            t.must_panic(C5, || format!("slice(..{}) of a slice of {} bits", x, b - a), || s.slice(..x).bit_len());
        }
        m[a..b].copy_from_slice(&w);
    }
    t.lib(C5);
    for i in 0..n { t.check(C5, v.get_bit(i as u64) == m[i], || format!("writing through slice {}..{}: base bit {} reads {}", a, b, i, !m[i])); }
    for i in 0..ceil(n, nb) { let k = nb.min(n - i * nb); t.check(C5, b64(v.get_block(i)) & mask(k) == word_of(m, i * nb, k), || format!("writing through slice {}..{}: base block {} is wrong", a, b, i)); }
    t.lib(&[]);
    for x in [n as u64 + 1, u64::MAX] { t.must_panic(C5, || format!("BitSliceMut::new({}..{}) of {} bits", a, x, n), || BitSliceMut::new(&mut *v, a as u64..x).bit_len()); t.must_panic(C5, || format!("BitSliceMut::new(..{}) of {} bits", x, n), || BitSliceMut::new(&mut *v, ..x).bit_len()); }
}

fn slice_b<B: Blk>(t: &T, p: &[u64]) {
    let mut r = Rng::new(p[3]); let n = p[2] as usize; let nb = B::W; let seed = p[3];
    match p[1] % 9 {
        0 => { let mut m = rand_bits(&mut r, ceil(n, nb) * nb); let mut v: Vec<B> = blocks_of(&m); slice_read(t, &v, &m, &mut r, seed); slice_write(t, &mut v, &mut m, &mut r, seed); }
        1 => { let m = rand_bits(&mut r, ceil(n, nb) * nb); let v: Vec<B> = blocks_of(&m); slice_read(t, &v[..], &m, &mut r, seed); slice_read(t, &&v[..], &m, &mut r, seed); }
        2 => { let mut m = rand_bits(&mut r, ceil(n, nb) * nb); let mut v: Vec<B> = blocks_of(&m); let mut s: &mut [B] = &mut v; slice_write(t, &mut s, &mut m, &mut r, seed); }
        3 => { let mut m = rand_bits(&mut r, n); let mut v = m.clone(); slice_read(t, &v, &m, &mut r, seed); slice_write(t, &mut v, &mut m, &mut r, seed); }
        4 => { let k = 1 + r.below(nb as u64) as usize; let e = n / k; let mut m = rand_bits(&mut r, e * k); let mut v: IntVector<B> = IntVector::new(k); for i in 0..e { v.push(B::of(word_of(&m, i * k, k))); } slice_read(t, &v, &m, &mut r, seed); slice_write(t, &mut v, &mut m, &mut r, seed); }
        5 => { let mut m = rand_bits(&mut r, n); let mut v: BitOnly<B> = BitOnly::new(&m); slice_read(t, &v, &m, &mut r, seed); slice_write(t, &mut v, &mut m, &mut r, seed); }
        6 => { let mut m = rand_bits(&mut r, n); let mut v: BlockOnly<B> = BlockOnly::new(&m, !0); slice_read(t, &v, &m, &mut r, seed); slice_write(t, &mut v, &mut m, &mut r, seed); }
        _ => { let mut m = rand_bits(&mut r, n); let mut v: BitVector<B> = bv_of(&m); slice_read(t, &v, &m, &mut r, seed); slice_write(t, &mut v, &mut m, &mut r, seed); slice_write(t, &mut v, &mut m, &mut r, seed + 9); slice_read(t, &v, &m, &mut r, seed); }
    }
}
pub fn slice(t: &T, p: &[u64]) { disp!(p[0], slice_b(t, p)) }

/// every range of a short vector: reads, then a write of each kind at the ends
fn slicegrid_b<B: Blk>(t: &T, p: &[u64]) {
    let nb = B::W; let n = p[1] as usize; let a = p[2] as usize; let b = p[3] as usize; if a > b || b > n { return; }
    let mut r = Rng::new(p[1] * 31 + p[2] * 7 + p[3]);
    let m = rand_bits(&mut r, n); let v: BitVector<B> = bv_of(&m);
    t.lib(C5);
    trace(|| format!("slice {}..{} of {} bits", a, b, n));
    let s = BitSlice::new(&v, a as u64..b as u64);
    t.check(C5, s.bit_len() == (b - a) as u64 && s.block_len() == ceil(b - a, nb), || format!("length {} / {} blocks", s.bit_len(), s.block_len()));
    for i in 0..b - a { t.check(C5, s.get_bit(i as u64) == m[a + i], || format!("bit {}", i)); }
    for i in 0..ceil(b - a, nb) { let k = nb.min(b - a - i * nb); let g = s.get_block(i).u(); t.check(C5, g & mask(k) == word_of(&m, a + i * nb, k), || format!("block {} = {:#x}", i, g)); }
    for c in 0..=nb.min(b - a) { let st = b - a - c; t.check(C5, s.get_bits(st as u64, c).u() == word_of(&m, a + st, c), || format!("get_bits({}, {})", st, c)); t.check(C5, s.get_bits(0, c).u() == word_of(&m, a, c), || format!("get_bits(0, {})", c)); }
    for w in [0u64, !0] {
        let mut v2 = v.clone(); let mut m2 = m.clone();
        { let mut s = BitSliceMut::new(&mut v2, a as u64..b as u64); for i in 0..ceil(b - a, nb) { s.set_block(i, B::of(w)); } }
        for i in a..b { m2[i] = w == !0; }
        for i in 0..n { t.check(C5, v2.get_bit(i as u64) == m2[i], || format!("set_block({:#x}) over the slice: base bit {} = {}", w, i, !m2[i])); }
        for c in [1usize, nb.min(b - a), (b - a).min(3)] { if c <= b - a {
            let mut v3 = v.clone(); let mut m3 = m.clone(); { let mut s = BitSliceMut::new(&mut v3, a as u64..b as u64); s.set_bits((b - a - c) as u64, c, B::of(w)); } for i in b - c..b { m3[i] = w == !0; }
            for i in 0..n { t.check(C5, v3.get_bit(i as u64) == m3[i], || format!("set_bits({}, {}, {:#x}): base bit {} = {}", b - a - c, c, w, i, !m3[i])); } } }
    }
    t.lib(&[]);
}
pub fn slicegrid(t: &T, p: &[u64]) { disp!(p[0], slicegrid_b(t, p)) }

// ---------------------------------------------------------------- block arithmetic
const C10: &[&str] = &["C10"];
fn flg(x: u64) -> usize { let mut n = 0; while n < 63 && (x >> (n + 1)) != 0 { n += 1; } n }
fn clg(x: u64) -> usize { if x <= 1 { 0 } else { flg(x - 1) + 1 } }

fn blkword_b<B: Blk>(t: &T, p: &[u64]) {
    let nb = B::W; let x = p[1] & mask(nb); let y = p[2] & mask(nb); let b = B::of(x);
    t.lib(C10);
    if x > 0 { t.check(C10, b.floor_lg() == flg(x), || format!("{:#x}.floor_lg() = {}, expected {}", x, b.floor_lg(), flg(x))); }
    t.check(C10, b.ceil_lg() == clg(x), || format!("{:#x}.ceil_lg() = {}, expected {}", x, b.ceil_lg(), clg(x)));
    if y > 0 { let e = (x as u128 + y as u128 - 1) / y as u128; let g = b.ceil_div(B::of(y)).u(); t.check(C10, g as u128 == e, || format!("{:#x}.ceil_div({:#x}) = {:#x}, expected {:#x}", x, y, g, e)); }
    for i in 0..nb {
        t.check(C10, BlockType::get_bit(b, i) == (x >> i & 1 == 1), || format!("{:#x}.get_bit({})", x, i));
        for v in [false, true] { let e = if v { x | 1 << i } else { x & !(1 << i) }; let g = b.with_bit(i, v).u(); t.check(C10, g == e, || format!("{:#x}.with_bit({}, {}) = {:#x}", x, i, v, g)); }
        let e = (x & mask(i + 1)).count_ones() as u64; t.check(C10, b.rank1(i as u64) == e && b.rank(i as u64, true) == e, || format!("{:#x}.rank1({}) = {}", x, i, b.rank1(i as u64)));
        t.check(C10, b.rank0(i as u64) == i as u64 + 1 - e && b.rank(i as u64, false) == i as u64 + 1 - e, || format!("{:#x}.rank0({}) = {}", x, i, b.rank0(i as u64)));
        t.check(C10, BitVec::get_bit(&b, i as u64) == (x >> i & 1 == 1), || format!("BitVec::get_bit({:#x}, {})", x, i));
    }
    t.check(C10, b.limit() == nb as u64 && b.bit_len() == nb as u64 && b.block_len() == 1 && b.get_block(0) == b, || "primitive as vector: lengths".into());
    let mut r = Rng::new(p[1] ^ p[2].rotate_left(7));
    for _ in 0..12 {
        let len = r.below(nb as u64 + 1) as usize; let st = r.below((nb - len) as u64 + 1) as usize;
        let e = (x.checked_shr(st as u32).unwrap_or(0)) & mask(len); let g = BlockType::get_bits(b, st, len).u();
        t.check(C10, g == e, || format!("{:#x}.get_bits({}, {}) = {:#x}, expected {:#x}", x, st, len, g, e));
        t.check(C10, BitVec::get_bits(&b, st as u64, len).u() == e, || format!("BitVec::get_bits({:#x}, {}, {})", x, st, len));
        let e = if len == 0 { x } else { (x & !(mask(len) << st)) | ((y & mask(len)) << st) } & mask(nb); let g = b.with_bits(st, len, B::of(y)).u();
        t.check(C10, g == e, || format!("{:#x}.with_bits({}, {}, {:#x}) = {:#x}, expected {:#x}", x, st, len, y, g, e));
        let mut c = b; c.set_bits(st as u64, len, B::of(y)); t.check(C10, c.u() == e, || format!("BitVecMut::set_bits({:#x}, {}, {}, {:#x}) = {:#x}", x, st, len, y, c.u()));
    }
    t.lib(&[]);
    if r.one_in(4) {
        for i in [nb, nb + 1, 2 * nb, 64, 128, 256, usize::MAX, usize::MAX - nb + 1] { if i >= nb {
            t.must_panic(&["C10", "C18"], || format!("{:#x}.get_bit({})", x, i), || BlockType::get_bit(b, i));
            t.must_panic(&["C10", "C18"], || format!("{:#x}.with_bit({}, true)", x, i), || b.with_bit(i, true));
            t.must_panic(&["C10", "C18"], || format!("{:#x}.with_bit({}, false)", x, i), || b.with_bit(i, false));
            t.must_panic(&["C10", "C18"], || format!("{:#x}.get_bits({}, 1)", x, i), || BlockType::get_bits(b, i, 1));
            t.must_panic(&["C10", "C18"], || format!("{:#x}.get_bits(0, {})", x, i + 1), || BlockType::get_bits(b, 0, i.saturating_add(1)));
            t.must_panic(&["C10", "C18"], || format!("{:#x}.get_bits({}, {})", x, i, nb), || BlockType::get_bits(b, i, nb));
            t.must_panic(&["C10", "C18"], || format!("{:#x}.with_bits({}, {})", x, i, nb), || b.with_bits(i, nb, b));
            t.must_panic(&["C10", "C18"], || format!("{:#x}.with_bits({}, 1)", x, i), || b.with_bits(i, 1, b));
            t.must_panic(&["C10", "C18"], || format!("{:#x}.rank1({})", x, i), || b.rank1(i as u64));
            t.must_panic(&["C10", "C18"], || format!("{:#x}.rank0({})", x, i), || b.rank0(i as u64));
            t.must_panic(&["C10", "C18"], || format!("{:#x}.rank({}, false)", x, i), || b.rank(i as u64, false));
        } }
    }
}
pub fn blkword(t: &T, p: &[u64]) { disp!(p[0], blkword_b(t, p)) }

fn blkidx_b<B: Blk>(t: &T, p: &[u64]) {
    let nb = B::W as u64; let x = p[1]; t.lib(C10);
    t.check(C10, B::nbits() == B::W && B::lg_nbits() == flg(nb), || format!("{}::nbits() = {}, lg_nbits() = {}", B::NAME, B::nbits(), B::lg_nbits()));
    t.check(C10, B::div_nbits(x) as u64 == x / nb, || format!("{}::div_nbits({}) = {}", B::NAME, x, B::div_nbits(x)));
    t.check(C10, B::checked_div_nbits(x) == Some((x / nb) as usize), || format!("{}::checked_div_nbits({}) = {:?}", B::NAME, x, B::checked_div_nbits(x)));
    let c = (x / nb + (x % nb != 0) as u64) as usize;
    t.check(C10, B::ceil_div_nbits(x) == c, || format!("{}::ceil_div_nbits({}) = {}", B::NAME, x, B::ceil_div_nbits(x)));
    t.check(C10, B::checked_ceil_div_nbits(x) == Some(c), || format!("{}::checked_ceil_div_nbits({}) = {:?}", B::NAME, x, B::checked_ceil_div_nbits(x)));
    t.check(C10, B::mod_nbits(x) as u64 == x % nb, || format!("{}::mod_nbits({}) = {}", B::NAME, x, B::mod_nbits(x)));
    let l = if x % nb == 0 { nb } else { x % nb };
    t.check(C10, B::last_block_bits(x) as u64 == l, || format!("{}::last_block_bits({}) = {}", B::NAME, x, B::last_block_bits(x)));
    let q = x / nb; t.check(C10, B::mul_nbits(q as usize) == q * nb, || format!("{}::mul_nbits({}) = {}", B::NAME, q, B::mul_nbits(q as usize)));
    let a = Address::new::<B>(x);
    t.check(C10, a.block_index as u64 == x / nb && a.bit_offset as u64 == x % nb, || format!("Address::new::<{}>({}) = {:?}", B::NAME, x, a));
    t.check(C10, a.bit_index::<B>() == x, || format!("Address::new::<{}>({}).bit_index() = {}", B::NAME, x, a.bit_index::<B>()));
    for k in 0..=B::W { t.check(C10, B::low_mask(k).u() == mask(k) & mask(B::W), || format!("{}::low_mask({}) = {:#x}", B::NAME, k, B::low_mask(k).u())); }
    for k in 0..B::W { t.check(C10, B::nth_mask(k).u() == 1u64 << k, || format!("{}::nth_mask({}) = {:#x}", B::NAME, k, B::nth_mask(k).u())); }
    t.check(C10, B::lg_nbits_mask::<u8>() as u64 == nb - 1 && B::lg_nbits_mask::<u64>() == nb - 1 && B::lg_nbits_mask::<u16>() as u64 == nb - 1 && B::lg_nbits_mask::<u32>() as u64 == nb - 1 && B::lg_nbits_mask::<usize>() as u64 == nb - 1, || format!("{}::lg_nbits_mask() = {:#x}", B::NAME, B::lg_nbits_mask::<u64>()));
    t.lib(&[]);
}
use succinct::storage::Address;
pub fn blkidx(t: &T, p: &[u64]) { disp!(p[0], blkidx_b(t, p)) }
