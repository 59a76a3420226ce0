//! Histories of bit vectors and integer vectors against sequence models.
use crate::common::*;
use crate::fw::*;
use crate::disp;
use succinct::bit_vec::*;
use succinct::int_vec::*;

fn full_check_bv<B: Blk>(t: &T, v: &BitVector<B>, m: &[bool], r: &mut Rng, deep: bool) {
    const A: &[&str] = &["C01"];
    let nb = B::W; let n = m.len();
    t.lib(&["C01", "C03"]);
    t.check(A, v.bit_len() == n as u64, || format!("bit_len() = {}, expected {}", v.bit_len(), n));
    if v.bit_len() != n as u64 { return; }
    let nbk = ceil(n, nb);
    t.check(&["C03"], v.block_len() == nbk, || format!("block_len() = {} for {} bits of {}-bit blocks", v.block_len(), n, nb));
    for i in 0..nbk.min(v.block_len()) {
        let k = nb.min(n - i * nb); let e = word_of(m, i * nb, k); let g = v.get_block(i).u();
        t.check(&["C01", "C04"], g & mask(k) == e, || format!("block {} reads {:#x}, its low {} bits should be {:#x}; expected bits {}", i, g, k, e, show(m)));
        t.check(&["C03"], g & !mask(k) == 0, || format!("block {} = {:#x} has bits set beyond the {} in use (length {})", i, g, k, n));
    }
    if deep || n <= 150 { for i in 0..n { t.check(A, v.get_bit(i as u64) == m[i], || format!("bit {} reads {}; expected bits {}", i, !m[i], show(m))); } }
    else { for _ in 0..24 { let i = r.below(n as u64) as usize; t.check(A, v.get_bit(i as u64) == m[i], || format!("bit {} reads {}", i, !m[i])); } }
    for _ in 0..4 {
        let c = (r.below(nb as u64 + 1) as usize).min(n); let s = r.below((n - c) as u64 + 1) as usize; let e = word_of(m, s, c);
        t.lib(&["C01", "C04"]);
        let g = v.get_bits(s as u64, c).u();
        t.check(&["C01", "C04"], g == e, || format!("get_bits({}, {}) = {:#x}, expected {:#x}; bits {}", s, c, g, e, show(m)));
    }
    if t.tagged(&["C03"]) && (deep || r.one_in(3)) {
        t.lib(&["C03"]);
        let f: BitVector<B> = bv_of(m);
        let mut cmp = |o: &BitVector<B>, how: &str| {
            t.check(&["C03"], *v == *o && *o == *v && !(*v != *o), || format!("unequal to the same bits built by {}; bits {} (length {})", how, show(m), n));
            t.check(&["C03"], hashed(v) == hashed(o), || format!("hashes differently from the same bits built by {}; bits {} (length {})", how, show(m), n));
        };
        cmp(&f, "pushing");
        cmp(&v.clone(), "cloning");
        let ol = r.below(n as u64 + 3 * nb as u64); let mut g: BitVector<B> = BitVector::with_fill(ol, r.bool()); g.clone_from(v); cmp(&g, "clone_from");
        let mut g = f.clone(); g.push_bit(true); g.push_bit(true); g.pop_bit(); g.pop_bit(); cmp(&g, "pushing and popping");
        let mut g = f.clone(); g.resize(n as u64 + 1 + r.below(3 * nb as u64), true); g.truncate(n as u64); cmp(&g, "growing and truncating");
        let mut g = f.clone(); g.resize(n as u64 + 1 + r.below(3 * nb as u64), r.bool()); g.resize(n as u64, r.bool()); cmp(&g, "resizing up and down");
        // different contents are unequal
        if n > 0 {
            let i = if r.bool() { n - 1 } else { r.below(n as u64) as usize };
            let mut g = f.clone(); g.set_bit(i as u64, !m[i]);
            t.check(&["C03"], *v != g && hashed(v) != hashed(&g), || format!("equal to (or hashes as) a vector that differs at bit {}", i));
            let mut g = f.clone(); g.pop_bit(); t.check(&["C03"], *v != g && hashed(v) != hashed(&g), || format!("equal to (or hashes as) itself without its last bit"));
        }
        let mut g = f.clone(); g.push_bit(false);
        t.check(&["C03"], *v != g && hashed(v) != hashed(&g), || format!("equal to (or hashes as) itself with a zero bit pushed (length {})", n));
    }
    if t.tagged(&["C19"]) && (deep || r.one_in(3)) {
        t.lib(&["C19"]);
        let got: Vec<bool> = v.iter().collect();
        t.check(&["C19"], got == m, || format!("iter() yields {} expected {}", show(&got), show(m)));
    }
    t.lib(&[]);
}

/// Pushes `k` more elements without reallocating.
fn pushes_bv<B: Blk>(t: &T, v: &BitVector<B>, k: u64) {
    const C: &[&str] = &["C20"];
    let k = k.min(300);
    let mut w = v.clone();
    w.reserve_exact(k);
    let (cap, c0) = (w.capacity(), calls());
    t.check(C, cap >= v.bit_len() + k, || format!("after reserve_exact({}) capacity {} < length {} + {}", k, cap, v.bit_len(), k));
    for i in 0..k { w.push_bit(i & 1 == 1); }
    let c1 = calls();
    t.check(C, c1 == c0 && w.capacity() == cap, || format!("pushing {} reserved bits onto {} reallocated", k, v.bit_len()));
    // capacity() is really what fits
    let spare = w.capacity() - w.bit_len();
    if spare < 2000 { let c0 = calls(); for _ in 0..spare { w.push_bit(true); } t.check(C, calls() == c0, || format!("capacity() promised {} spare bits but pushing them reallocated", spare)); }
}

fn bvhist_b<B: Blk>(t: &T, p: &[u64]) {
    const A: &[&str] = &["C01"];
    let mut r = Rng::new(p[1]); let nops = p[2] as usize; let max = p[3] as usize;
    let nb = B::W;
    let mut m: Vec<bool>; let mut v: BitVector<B>;
    t.lib(A);
    match r.below(7) {
        0 => { v = BitVector::new(); m = vec![]; trace(|| "BitVector::new()".into()); }
        1 => { let c = near_len(&mut r, nb, max) as u64; trace(|| format!("with_capacity({})", c)); t.lib(&["C01", "C20"]); v = BitVector::with_capacity(c); m = vec![]; t.check(&["C20"], v.capacity() >= c, || format!("capacity() = {} after with_capacity({})", v.capacity(), c));
            let c0 = calls(); for _ in 0..c { v.push_bit(true); } t.check(&["C20"], calls() == c0, || format!("pushing {} bits after with_capacity({}) reallocated", c, c)); m = vec![true; c as usize]; }
        2 => { let c = r.below(6) as usize; trace(|| format!("block_with_capacity({})", c)); t.lib(&["C01", "C20"]); v = BitVector::block_with_capacity(c); m = vec![]; t.check(&["C20"], v.block_capacity() >= c, || format!("block_capacity() = {} after block_with_capacity({})", v.block_capacity(), c)); }
        3 | 4 => { let n = near_len(&mut r, nb, max); let b = r.bool(); trace(|| format!("with_fill({}, {})", n, b)); v = BitVector::with_fill(n as u64, b); m = vec![b; n]; }
        5 => { let k = r.below((max / nb + 1) as u64) as usize; let w = B::of(r.word()); trace(|| format!("block_with_fill({}, {:#x})", k, w.u())); v = BitVector::block_with_fill(k, w); m = (0..k * nb).map(|i| w.u() >> (i % nb) & 1 == 1).collect(); }
        _ => { v = BitVector::default(); m = vec![]; trace(|| "BitVector::default()".into()); }
    }
    full_check_bv(t, &v, &m, &mut r, true);
    for k in 0..nops {
        t.lib(A);
        let n = m.len();
        let op = r.below(22);
        match op {
            0 | 1 => { let b = r.bool(); trace(|| format!("push_bit({})", b)); v.push_bit(b); m.push(b); }
            2 => { let c = 1 + r.below(nb as u64 + 2); trace(|| format!("{} pushes", c)); for _ in 0..c { let b = r.bool(); v.push_bit(b); m.push(b); } }
            3 | 4 => { let c = 1 + if r.bool() { 0 } else { r.below(nb as u64 + 2) }; trace(|| format!("{} pops", c)); for _ in 0..c { let g = v.pop_bit(); let e = m.pop(); t.check(A, g == e, || format!("pop_bit() = {:?}, expected {:?}", g, e)); } }
            5 if n > 0 => { let i = r.below(n as u64) as usize; let b = r.bool(); trace(|| format!("set_bit({}, {})", i, b)); v.set_bit(i as u64, b); m[i] = b; }
            6 => { let c = (r.below(nb as u64 + 1) as usize).min(n); let s = r.below((n - c) as u64 + 1) as usize; let w = r.word(); trace(|| format!("set_bits({}, {}, {:#x})", s, c, w & mask(nb))); t.lib(&["C01", "C04"]); v.set_bits(s as u64, c, B::of(w)); for i in 0..c { m[s + i] = w >> i & 1 == 1; } }
            7 if n > 0 => { let nbk = ceil(n, nb); let i = if r.bool() { nbk - 1 } else { r.below(nbk as u64) as usize }; let w = r.word(); trace(|| format!("set_block({}, {:#x})", i, w & mask(nb))); t.lib(&["C01", "C04"]); v.set_block(i, B::of(w)); for j in 0..nb.min(n - i * nb) { m[i * nb + j] = w >> j & 1 == 1; } }
            8 | 9 | 10 => { let l = match r.below(4) { 0 => n + r.below(2 * nb as u64 + 2) as usize, 1 => n.saturating_sub(r.below(2 * nb as u64 + 2) as usize), _ => near_len(&mut r, nb, max) }; let b = r.bool(); trace(|| format!("resize({}, {}) from {}", l, b, n)); v.resize(l as u64, b); m.resize(l, b); }
            11 | 12 => { let l = if r.one_in(5) { n + r.below(70) as usize } else { n.saturating_sub(r.below(2 * nb as u64 + 2) as usize) }; trace(|| format!("truncate({}) from {}", l, n)); v.truncate(l as u64); m.truncate(l); }
            13 if r.one_in(3) => { trace(|| "clear()".into()); let c = v.capacity(); t.lib(&["C01", "C20"]); v.clear(); m.clear(); t.check(&["C20"], v.capacity() == c, || format!("clear() changed capacity from {} to {}", c, v.capacity())); }
            14 => { let w = r.word(); trace(|| format!("push_block({:#x}) at length {}", w & mask(nb), n)); v.push_block(B::of(w)); while m.len() % nb != 0 { m.push(false); } for i in 0..nb { m.push(w >> i & 1 == 1); } }
            15 => { let b = r.bool(); trace(|| format!("align_block({}) at length {}", b, n)); v.align_block(b); while m.len() % nb != 0 { m.push(b); } }
            16 => { let k0 = ceil(n, nb); let kn = match r.below(3) { 0 => k0, 1 => k0.saturating_sub(r.below(3) as usize), _ => (k0 + r.below(4) as usize).min(max / nb + 2) }; let w = r.word(); trace(|| format!("block_resize({}, {:#x}) at length {}", kn, w & mask(nb), n)); v.block_resize(kn, B::of(w));
                    while m.len() < k0 * nb { m.push(false); } m.truncate(kn * nb); for _ in k0..kn { for i in 0..nb { m.push(w >> i & 1 == 1); } } }
            17 => { let k0 = ceil(n, nb); let kn = if r.one_in(4) { k0 + r.below(3) as usize } else { k0.saturating_sub(r.below(3) as usize) }; trace(|| format!("block_truncate({}) at length {}", kn, n)); v.block_truncate(kn); if kn < k0 { m.truncate(kn * nb); } }
            18 => { t.lib(&["C20"]); let a = match r.below(8) { 0 | 1 => 0, 2 | 3 => r.below(2 * nb as u64 + 2), 4 => if t.tagged(&["C20"]) { (1u64 << (10 + r.below(14))) + r.below(200) } else { 7 }, _ => r.below(1000) };
                    match r.below(4) {
                        0 => { trace(|| format!("reserve({}) at length {}", a, n)); v.reserve(a); t.check(&["C20"], v.capacity() >= n as u64 + a, || format!("reserve({}) at length {} left capacity {}", a, n, v.capacity())); }
                        1 => { trace(|| format!("reserve_exact({}) at length {}", a, n)); v.reserve_exact(a); t.check(&["C20"], v.capacity() >= n as u64 + a, || format!("reserve_exact({}) at length {} left capacity {}", a, n, v.capacity())); }
                        2 => { trace(|| format!("block_reserve({}) at length {}", a, n)); v.block_reserve(a as usize); t.check(&["C20"], v.block_capacity() >= ceil(n, nb) + a as usize, || format!("block_reserve({}) at {} blocks left block_capacity {}", a, ceil(n, nb), v.block_capacity())); }
                        _ => { trace(|| format!("block_reserve_exact({}) at length {}", a, n)); v.block_reserve_exact(a as usize); t.check(&["C20"], v.block_capacity() >= ceil(n, nb) + a as usize, || format!("block_reserve_exact({}) at {} blocks left block_capacity {}", a, ceil(n, nb), v.block_capacity())); }
                    }
                    t.check(&["C20"], v.bit_len() == n as u64 && (0..n).all(|i| v.get_bit(i as u64) == m[i]), || format!("reserving changed the contents")); }
            19 => { t.lib(&["C20"]); trace(|| format!("shrink_to_fit() at length {}", n)); v.shrink_to_fit(); t.check(&["C20"], v.bit_len() == n as u64 && (0..n).all(|i| v.get_bit(i as u64) == m[i]), || format!("shrink_to_fit() changed the contents"));
                    t.check(&["C20"], v.capacity() >= n as u64, || format!("capacity {} below length {}", v.capacity(), n)); }
            20 => { trace(|| "clone()".into()); v = v.clone(); }
            _ => { if t.tagged(&["C20"]) { t.lib(&["C20"]); let a = r.below(200); pushes_bv(t, &v, a); } }
        }
        t.check(&["C20"], v.capacity() >= v.bit_len() && v.block_capacity() >= v.block_len() && v.capacity() <= (v.block_capacity() * nb) as u64, || format!("capacity {} / block_capacity {} against length {}", v.capacity(), v.block_capacity(), v.bit_len()));
        let deep = k + 1 == nops;
        full_check_bv(t, &v, &m, &mut r, deep);
        if m.len() > 4 * max + 200 { t.lib(A); trace(|| format!("truncate({})", max)); v.truncate(max as u64); m.truncate(max); }
    }
    if t.tagged(&["C18"]) { chk_oob_read(t, &v, &m, p[1]); chk_oob_write(t, &mut v, &m, p[1]); }
    if t.tagged(&["C19"]) { iter_bv(t, &v, &m, &mut r); }
}
pub fn bvhist(t: &T, p: &[u64]) { disp!(p[0], bvhist_b(t, p)) }

/// resize from every small length to every small length
fn bvresize_b<B: Blk>(t: &T, p: &[u64]) {
    let (a, b, f, g) = (p[1] as usize, p[2] as usize, p[3] & 1 == 1, p[3] & 2 == 2);
    let mut r = Rng::new(p[1] * 1000 + p[2]);
    t.lib(&["C01"]);
    trace(|| format!("with_fill({}, {}); resize({}, {})", a, g, b, f));
    let mut v: BitVector<B> = BitVector::with_fill(a as u64, g); let mut m = vec![g; a];
    full_check_bv(t, &v, &m, &mut r, true);
    t.lib(&["C01"]);
    v.resize(b as u64, f); m.resize(b, f);
    full_check_bv(t, &v, &m, &mut r, true);
    t.lib(&["C01"]);
    v.push_bit(!f); m.push(!f);
    let c = (a + b) / 2; v.resize(c as u64, !f); m.resize(c, !f);
    full_check_bv(t, &v, &m, &mut r, true);
}
pub fn bvresize(t: &T, p: &[u64]) { disp!(p[0], bvresize_b(t, p)) }

// ---------------------------------------------------------------- iterators
pub fn iter_any<X: PartialEq + Copy + std::fmt::Debug, I: Iterator<Item = X> + DoubleEndedIterator + ExactSizeIterator + Clone>(t: &T, it0: I, m: &[X], r: &mut Rng) {
    const C: &[&str] = &["C19"];
    t.lib(C);
    let mut it = it0; let (mut a, mut z) = (0usize, m.len());
    let steps = 6 + r.below(24);
    let mut log = String::new();
    for s in 0..steps {
        let left = z - a;
        t.check(C, it.len() == left && it.size_hint() == (left, Some(left)), || format!("after{} on {} elements: len() = {}, size_hint() = {:?}, {} left", log, m.len(), it.len(), it.size_hint(), left));
        match r.below(10) {
            0 | 1 | 2 => { log += " next"; let e = if a < z { a += 1; Some(m[a - 1]) } else { None }; let g = it.next(); t.check(C, g == e, || format!("{} on {} elements gave {:?}, expected {:?}", log, m.len(), g, e)); }
            3 | 4 | 5 => { log += " next_back"; let e = if a < z { z -= 1; Some(m[z]) } else { None }; let g = it.next_back(); t.check(C, g == e, || format!("{} on {} elements gave {:?}, expected {:?}", log, m.len(), g, e)); }
            6 => { let n = if r.one_in(3) { (left as u64 + r.below(3)).saturating_sub(1) as usize } else if r.one_in(6) { [usize::MAX, usize::MAX - 1, usize::MAX - a, 1 << 63, usize::MAX / 2][r.below(5) as usize] } else { r.below(left as u64 / 3 + 2) as usize };
                   log += &format!(" nth({})", n); let e = if n < left { a += n + 1; Some(m[a - 1]) } else { a = z; None }; let g = it.nth(n); t.check(C, g == e, || format!("{} on {} elements gave {:?}, expected {:?}", log, m.len(), g, e)); }
            7 => { let n = if r.one_in(3) { (left as u64 + r.below(3)).saturating_sub(1) as usize } else { r.below(left as u64 / 3 + 2) as usize };
                   log += &format!(" nth_back({})", n); let e = if n < left { z -= n + 1; Some(m[z]) } else { z = a; None }; let g = it.nth_back(n); t.check(C, g == e, || format!("{} on {} elements gave {:?}, expected {:?}", log, m.len(), g, e)); }
            8 => { let g = it.clone().count(); t.check(C, g == left, || format!("{} count() = {}, {} left", log, g, left)); let g = it.clone().last(); let e = if a < z { Some(m[z - 1]) } else { None }; t.check(C, g == e, || format!("{} last() = {:?}, expected {:?}", log, g, e)); }
            _ => { let g: Vec<X> = it.clone().collect(); t.check(C, g == &m[a..z], || format!("{} remaining elements {:?}, expected {:?}", log, g, &m[a..z])); let mut g: Vec<X> = it.clone().rev().collect(); g.reverse(); t.check(C, g == &m[a..z], || format!("{} remaining elements from the back {:?}, expected {:?}", log, g, &m[a..z]));
                   let c = it.clone().fold(0usize, |n, _| n + 1); t.check(C, c == left, || format!("{} fold saw {} of {}", log, c, left)); let g = it.clone().fold(Vec::new(), |mut v, x| { v.push(x); v }); t.check(C, g == &m[a..z], || format!("{} fold saw {:?}, expected {:?}", log, g, &m[a..z]));
                   let mut g = it.clone().rfold(Vec::new(), |mut v, x| { v.push(x); v }); g.reverse(); t.check(C, g == &m[a..z], || format!("{} rfold saw {:?} (reversed), expected {:?}", log, g, &m[a..z]));
                   let mut g = Vec::new(); it.clone().for_each(|x| g.push(x)); t.check(C, g == &m[a..z], || format!("{} for_each saw {:?}, expected {:?}", log, g, &m[a..z]));
                   if left > 0 { let k = r.below(left as u64) as usize; let mut j = it.clone(); let mut c = 0; let g = j.find(|_| { c += 1; c > k }); t.check(C, g == Some(m[a + k]) && j.len() == left - k - 1, || format!("{} find of element {} gave {:?}, {} left", log, k, g, j.len()));
                       let mut j = it.clone(); let mut c = 0; let g = j.rfind(|_| { c += 1; c > k }); t.check(C, g == Some(m[z - 1 - k]) && j.len() == left - k - 1, || format!("{} rfind of element {} from the back gave {:?}, {} left", log, k, g, j.len())); }
                   let w = it.clone().skip(1).step_by(2).count(); t.check(C, w == left / 2, || format!("{} skip(1).step_by(2) saw {} of {}", log, w, left)); }
        }
        let _ = s;
    }
    if r.bool() { let left = z - a; let c = it.clone().count(); t.check(C, c == left, || format!("{} count {} of {}", log, c, left));
        if r.bool() { for k in 0..left { let g = it.next(); t.check(C, g == Some(m[a + k]), || format!("{} then next() number {} gave {:?}", log, k, g)); } }
        else { for k in 0..left { let g = it.next_back(); t.check(C, g == Some(m[z - 1 - k]), || format!("{} then next_back() number {} gave {:?}", log, k, g)); } }
        for k in 0..3 { let g = if r.bool() { it.next() } else if r.bool() { it.next_back() } else { it.nth(k) }; t.check(C, g.is_none() && it.len() == 0 && it.size_hint() == (0, Some(0)), || format!("{}: exhausted, yet it yields {:?} (len {})", log, g, it.len())); } }
    t.lib(&[]);
}
fn iter_bv<B: Blk>(t: &T, v: &BitVector<B>, m: &[bool], r: &mut Rng) {
    for _ in 0..3 { iter_any(t, v.iter(), m, r); }
    iter_any(t, (&*v).into_iter(), m, r);
    let mut it = v.iter(); let a = it.len(); let _ = it.next(); t.check(&["C19"], a == m.len(), || format!("iter().len() = {} of {}", a, m.len()));
}

// ---------------------------------------------------------------- integer vectors
fn ibits(m: &[u64], k: usize) -> Vec<bool> { let mut b = Vec::with_capacity(m.len() * k); for x in m { for i in 0..k { b.push(x >> i & 1 == 1); } } b }
fn ielems(b: &[bool], k: usize) -> Vec<u64> { (0..b.len() / k).map(|i| word_of(b, i * k, k)).collect() }

fn full_check_iv<B: Blk>(t: &T, v: &IntVector<B>, m: &[u64], k: usize, r: &mut Rng, deep: bool) {
    const A: &[&str] = &["C02"];
    let nb = B::W; let n = m.len();
    t.lib(A);
    t.check(A, v.len() == n as u64, || format!("len() = {}, expected {}", v.len(), n));
    t.check(A, v.is_empty() == (n == 0) && v.element_bits() == k, || format!("is_empty() = {}, element_bits() = {} at length {} width {}", v.is_empty(), v.element_bits(), n, k));
    if v.len() != n as u64 { return; }
    if deep || n < 60 { for i in 0..n { let g = v.get(i as u64).u(); t.check(A, g == m[i], || format!("get({}) = {:#x}, expected {:#x}; width {}, length {}", i, g, m[i], k, n)); } }
    else { for _ in 0..20 { let i = r.below(n as u64) as usize; let g = v.get(i as u64).u(); t.check(A, g == m[i], || format!("get({}) = {:#x}, expected {:#x}; width {}, length {}", i, g, m[i], k, n)); } }
    let bits = ibits(m, k);
    t.lib(&["C03"]);
    let nbk = ceil(bits.len(), nb);
    t.check(&["C03"], v.block_len() == nbk, || format!("block_len() = {} for {} elements of {} bits in {}-bit blocks", v.block_len(), n, k, nb));
    t.check(&["C02", "C04"], v.bit_len() == bits.len() as u64, || format!("bit_len() = {} for {} elements of {} bits", v.bit_len(), n, k));
    for i in 0..nbk.min(v.block_len()) {
        let c = nb.min(bits.len() - i * nb); let e = word_of(&bits, i * nb, c); let g = v.get_block(i).u();
        t.check(&["C02", "C04"], g & mask(c) == e, || format!("block {} reads {:#x}, expected low {} bits {:#x}", i, g, c, e));
        t.check(&["C03"], g & !mask(c) == 0, || format!("block {} = {:#x} has bits set beyond the {} in use (width {}, length {})", i, g, c, k, n));
    }
    if !bits.is_empty() {
        t.lib(&["C02"]);
        // reading by arbitrary width and offset
        let w = 1 + r.below(nb as u64) as usize; let off = r.below(bits.len() as u64);
        let cnt = (bits.len() as u64 - off) / w as u64;
        if cnt > 0 { let i = r.below(cnt); let g = v.get_random(off, w, i).u(); let e = word_of(&bits, (off + i * w as u64) as usize, w); t.check(&["C02", "C04"], g == e, || format!("get_random({}, {}, {}) = {:#x}, expected {:#x}", off, w, i, g, e)); }
    }
    if t.tagged(&["C03"]) && (deep || r.one_in(3)) {
        t.lib(&["C03"]);
        let mut f: IntVector<B> = IntVector::new(k); for x in m { f.push(B::of(*x)); }
        let cmp = |o: &IntVector<B>, how: &str| {
            t.check(&["C03"], *v == *o && *o == *v && !(*v != *o), || format!("unequal to the same elements built by {}: width {}, {:x?}", how, k, &m[..n.min(40)]));
            t.check(&["C03"], hashed(v) == hashed(o), || format!("hashes differently from the same elements built by {}: width {}, {:x?}", how, k, &m[..n.min(40)]));
        };
        cmp(&f, "pushing"); cmp(&v.clone(), "cloning");
        let (ol, ok) = (r.below(n as u64 + 70), 1 + r.below(nb as u64) as usize); let mut g: IntVector<B> = IntVector::with_fill(ok, ol, B::of(r.word() & mask(ok))); g.clone_from(v); cmp(&g, "clone_from");
        let mut g = f.clone(); for _ in 0..3 { g.push(B::of(mask(k))); } for _ in 0..3 { g.pop(); } cmp(&g, "pushing and popping");
        let mut g = f.clone(); let x = B::of(r.word() & mask(k)); g.resize(n as u64 + 1 + r.below(70), x); g.truncate(n as u64); cmp(&g, "growing and truncating");
        let mut g = f.clone(); let x = B::of(r.word() & mask(k)); g.resize(n as u64 + 1 + r.below(70), x); g.resize(n as u64, x); cmp(&g, "resizing up and down");
        if n > 0 {
            let i = if r.bool() { n - 1 } else { r.below(n as u64) as usize };
            let mut g = f.clone(); g.set(i as u64, B::of(m[i] ^ (1 << r.below(k as u64))));
            t.check(&["C03"], *v != g && hashed(v) != hashed(&g), || format!("equal to (or hashes as) a vector that differs at element {}", i));
            let mut g = f.clone(); g.pop(); t.check(&["C03"], *v != g && hashed(v) != hashed(&g), || "equal to (or hashes as) itself without its last element".to_string());
        }
        let mut g = f.clone(); g.push(B::of(0)); t.check(&["C03"], *v != g && hashed(v) != hashed(&g), || "equal to (or hashes as) itself with a zero pushed".to_string());
    }
    if t.tagged(&["C19"]) && (deep || r.one_in(3)) { t.lib(&["C19"]); let got: Vec<u64> = v.iter().map(|x| x.u()).collect(); t.check(&["C19"], got == m, || format!("iter() yields {:x?}, expected {:x?}", got, m)); }
    t.lib(&[]);
}

fn ivhist_b<B: Blk>(t: &T, p: &[u64]) {
    const A: &[&str] = &["C02"];
    let nb = B::W;
    let mut r = Rng::new(p[1]); let nops = p[2] as usize; let max = p[3] as usize; let k = 1 + (p[4] as usize - 1) % nb;
    let maxe = (max / k).max(3);
    let mk = mask(k);
    let mut m: Vec<u64>; let mut v: IntVector<B>;
    t.lib(A);
    match r.below(7) {
        0 => { trace(|| format!("IntVector::new({})", k)); v = IntVector::new(k); m = vec![]; }
        1 => { let c = r.below(maxe as u64 + 1); trace(|| format!("with_capacity({}, {})", k, c)); t.lib(&["C02", "C20"]); v = IntVector::with_capacity(k, c); m = vec![]; t.check(&["C20"], v.capacity() >= c, || format!("capacity() = {} after with_capacity({}, {})", v.capacity(), k, c));
            let c0 = calls(); for _ in 0..c { v.push(B::of(mk)); } t.check(&["C20"], calls() == c0, || format!("pushing {} elements after with_capacity({}, {}) reallocated", c, k, c)); m = vec![mk; c as usize]; }
        2 => { let c = r.below(6) as usize; trace(|| format!("block_with_capacity({}, {})", k, c)); t.lib(&["C02", "C20"]); v = IntVector::block_with_capacity(k, c); m = vec![]; t.check(&["C20"], v.block_capacity() >= c, || format!("block_capacity() = {} after block_with_capacity({}, {})", v.block_capacity(), k, c)); }
        3 | 4 | 5 => { let n = r.below(maxe as u64 + 1); let x = r.word() & mk; trace(|| format!("with_fill({}, {}, {:#x})", k, n, x)); v = IntVector::with_fill(k, n, B::of(x)); m = vec![x; n as usize]; }
        _ => { let c = r.below((max / nb + 1) as u64) as usize; let w = r.word(); trace(|| format!("block_with_fill({}, {}, {:#x})", k, c, w & mask(nb))); v = IntVector::block_with_fill(k, c, B::of(w)); let b: Vec<bool> = (0..c * nb).map(|i| w >> (i % nb) & 1 == 1).collect(); m = ielems(&b, k); }
    }
    full_check_iv(t, &v, &m, k, &mut r, true);
    for step in 0..nops {
        t.lib(A);
        let n = m.len();
        let x = r.word() & mk;
        match r.below(22) {
            0 | 1 => { trace(|| format!("push({:#x})", x)); v.push(B::of(x)); m.push(x); }
            2 => { let c = 1 + r.below(10); trace(|| format!("{} pushes", c)); for _ in 0..c { let x = r.word() & mk; v.push(B::of(x)); m.push(x); } }
            3 | 4 => { let c = 1 + if r.bool() { 0 } else { r.below(10) }; trace(|| format!("{} pops", c)); for _ in 0..c { let g = v.pop().map(|x| x.u()); let e = m.pop(); t.check(A, g == e, || format!("pop() = {:?}, expected {:?}", g, e)); } }
            5 | 6 | 7 if n > 0 => { let i = if r.one_in(4) { n as u64 - 1 } else { r.below(n as u64) }; trace(|| format!("set({}, {:#x})", i, x)); v.set(i, B::of(x)); m[i as usize] = x; }
            8 | 9 => { let l = match r.below(3) { 0 => n + r.below(12) as usize, 1 => n.saturating_sub(r.below(12) as usize), _ => r.below(maxe as u64 + 1) as usize }; trace(|| format!("resize({}, {:#x}) from {}", l, x, n)); v.resize(l as u64, B::of(x)); m.resize(l, x); }
            10 | 11 => { let l = if r.one_in(5) { n + r.below(9) as usize } else { n.saturating_sub(r.below(12) as usize) }; trace(|| format!("truncate({}) from {}", l, n)); v.truncate(l as u64); m.truncate(l); }
            12 if r.one_in(3) => { trace(|| "clear()".into()); let c = v.capacity(); t.lib(&["C02", "C20"]); v.clear(); m.clear(); t.check(&["C20"], v.capacity() == c, || format!("clear() changed capacity from {} to {}", c, v.capacity())); }
            13 => { let mut b = ibits(&m, k); if !b.is_empty() { let w = 1 + r.below(nb as u64) as usize; let off = r.below(b.len() as u64); let cnt = (b.len() as u64 - off) / w as u64; if cnt > 0 { let i = r.below(cnt); let y = r.word() & mask(w); trace(|| format!("set_random({}, {}, {}, {:#x})", off, w, i, y)); v.set_random(off, w, i, B::of(y)); for j in 0..w { b[(off + i * w as u64) as usize + j] = y >> j & 1 == 1; } m = ielems(&b, k); } } }
            14 => { let mut b = ibits(&m, k); let k0 = ceil(b.len(), nb); let kn = match r.below(3) { 0 => k0, 1 => k0.saturating_sub(r.below(3) as usize), _ => (k0 + r.below(4) as usize).min(max / nb + 2) }; let w = r.word(); trace(|| format!("block_resize({}, {:#x}) at length {}", kn, w & mask(nb), n)); v.block_resize(kn, B::of(w));
                    while b.len() < k0 * nb { b.push(false); } b.truncate(kn * nb); for _ in k0..kn { for i in 0..nb { b.push(w >> i & 1 == 1); } } m = ielems(&b, k); }
            15 => { let mut b = ibits(&m, k); let k0 = ceil(b.len(), nb); let kn = if r.one_in(4) { k0 + 1 } else { k0.saturating_sub(r.below(3) as usize) }; trace(|| format!("block_truncate({}) at length {}", kn, n)); v.block_truncate(kn); if kn < k0 { b.truncate(kn * nb); m = ielems(&b, k); } }
            16 if n > 0 => { let mut b = ibits(&m, k); t.lib(&["C02", "C04"]); match r.below(3) {
                    0 => { let nbk = ceil(b.len(), nb); let i = if r.bool() { nbk - 1 } else { r.below(nbk as u64) as usize }; let w = r.word(); trace(|| format!("set_block({}, {:#x})", i, w & mask(nb))); v.set_block(i, B::of(w)); for j in 0..nb.min(b.len() - i * nb) { b[i * nb + j] = w >> j & 1 == 1; } }
                    1 => { let i = r.below(b.len() as u64); let y = r.bool(); trace(|| format!("set_bit({}, {})", i, y)); v.set_bit(i, y); b[i as usize] = y; }
                    _ => { let c = (r.below(nb as u64 + 1) as usize).min(b.len()); let s = r.below((b.len() - c) as u64 + 1) as usize; let w = r.word(); trace(|| format!("set_bits({}, {}, {:#x})", s, c, w & mask(nb))); v.set_bits(s as u64, c, B::of(w)); for i in 0..c { b[s + i] = w >> i & 1 == 1; } } }
                    m = ielems(&b, k); }
            17 | 18 => { t.lib(&["C20"]); let a = match r.below(7) { 0 | 1 => 0, 2 | 3 => r.below(20), 4 => if t.tagged(&["C20"]) { (1u64 << (10 + r.below(11))) + r.below(200) } else { 7 }, _ => r.below(500) };
                    match r.below(5) {
                        0 => { trace(|| format!("reserve({}) at length {}", a, n)); v.reserve(a); t.check(&["C20"], v.capacity() >= n as u64 + a, || format!("reserve({}) at length {} width {} left capacity {}", a, n, k, v.capacity())); }
                        1 => { trace(|| format!("reserve_exact({}) at length {}", a, n)); v.reserve_exact(a); t.check(&["C20"], v.capacity() >= n as u64 + a, || format!("reserve_exact({}) at length {} width {} left capacity {}", a, n, k, v.capacity())); }
                        2 => { trace(|| format!("block_reserve({}) at length {}", a, n)); v.block_reserve(a as usize); t.check(&["C20"], v.block_capacity() >= ceil(n * k, nb) + a as usize, || format!("block_reserve({}) left block_capacity {}", a, v.block_capacity())); }
                        3 => { trace(|| format!("block_reserve_exact({}) at length {}", a, n)); v.block_reserve_exact(a as usize); t.check(&["C20"], v.block_capacity() >= ceil(n * k, nb) + a as usize, || format!("block_reserve_exact({}) left block_capacity {}", a, v.block_capacity())); }
                        _ => { trace(|| format!("shrink_to_fit() at length {}", n)); v.shrink_to_fit(); }
                    }
                    t.check(&["C20"], v.len() == n as u64 && (0..n).all(|i| v.get(i as u64).u() == m[i]), || "reserving or shrinking changed the contents".to_string());
                    if t.tagged(&["C20"]) { let a = r.below(60); let mut w = v.clone(); w.reserve(a); let (cap, c0) = (w.capacity(), calls()); for _ in 0..a { w.push(B::of(mk)); } t.check(&["C20"], calls() == c0 && w.capacity() == cap, || format!("pushing {} reserved elements (width {}) onto {} reallocated", a, k, n));
                        let spare = w.capacity() - w.len(); if spare < 2000 { let c0 = calls(); for _ in 0..spare { w.push(B::of(mk)); } t.check(&["C20"], calls() == c0, || format!("capacity() promised {} spare elements but pushing them reallocated", spare)); } } }
            19 => { v = v.clone(); trace(|| "clone()".into()); }
            _ => { if n > 0 { let i = r.below(n as u64); trace(|| format!("set({}, {:#x})", i, x)); v.set(i, B::of(x)); m[i as usize] = x; } }
        }
        t.check(&["C20"], v.capacity() >= v.len() && v.capacity() == (v.block_capacity() as u64 * nb as u64) / k as u64, || format!("capacity {} with {} blocks of {} bits, width {}, length {}", v.capacity(), v.block_capacity(), nb, k, v.len()));
        full_check_iv(t, &v, &m, k, &mut r, step + 1 == nops);
        if m.len() > 4 * maxe + 50 { t.lib(A); trace(|| format!("truncate({})", maxe)); v.truncate(maxe as u64); m.truncate(maxe); }
    }
    if t.tagged(&["C18", "C23"]) { iv_refuse(t, &mut v, &m, k, &mut r); }
    if t.tagged(&["C19"]) { let mm: Vec<B> = m.iter().map(|x| B::of(*x)).collect(); for _ in 0..3 { iter_any(t, v.iter(), &mm, &mut r); } iter_any(t, (&v).into_iter(), &mm, &mut r); }
    if t.tagged(&["C18"]) { let b = ibits(&m, k); chk_oob_read(t, &v, &b, p[1]); chk_oob_write(t, &mut v, &b, p[1]); }
}
pub fn ivhist(t: &T, p: &[u64]) { disp!(p[0], ivhist_b(t, p)) }

fn iv_refuse<B: Blk>(t: &T, v: &mut IntVector<B>, m: &[u64], k: usize, r: &mut Rng) {
    let nb = B::W; let n = m.len() as u64; let mk = mask(k);
    let wrap = (1u128 << 64) / k as u128;
    let mut ps = vec![n, n + 1, n + 2, n + nb as u64, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, wrap as u64, wrap.saturating_sub(1) as u64, (wrap + 1).min(u64::MAX as u128) as u64, u64::MAX / nb as u64, u64::MAX / nb as u64 + 1];
    for j in 1..5u128 { let q = (j << 64) / k as u128; for d in 0..3 { let q = q + d; if q <= u64::MAX as u128 { ps.push(q as u64); } } }
    for i in ps { if i >= n {
        t.must_panic(&["C18"], || format!("get({}) of {} elements of {} bits", i, n, k), || v.get(i));
        let x = B::of(r.next() & mk);
        t.must_panic(&["C18"], || format!("set({}, ..) of {} elements of {} bits", i, n, k), || v.set(i, x));
        t.must_panic(&["C18"], || format!("get_random(0, {}, {})", k, i), || v.get_random(0, k, i));
        t.must_panic(&["C18"], || format!("set_random(0, {}, {}, ..)", k, i), || v.set_random(0, k, i, x));
    } }
    let bits = n * k as u64;
    for (off, w, i) in [(bits, 1, 0), (bits.saturating_sub(1), 2, 0), (u64::MAX, 1, 1), (u64::MAX, 1, 0), (u64::MAX - 1, 2, 1), (0, 1, bits), (1, 1, bits), (u64::MAX - 6, nb, 1), (u64::MAX, nb, 1 << 60), (2, 2, 1 << 63)] {
        if w <= nb { t.must_panic(&["C18"], || format!("get_random({}, {}, {}) of {} bits", off, w, i, bits), || v.get_random(off, w, i));
            t.must_panic(&["C18"], || format!("set_random({}, {}, {}, 0) of {} bits", off, w, i, bits), || v.set_random(off, w, i, B::of(0))); }
    }
    if k < nb {
        let mut xs = vec![mk + 1, mask(nb), 1u64 << (nb - 1), (1u64 << (nb - 1)) | 1];
        for _ in 0..4 { xs.push((r.next() & mask(nb)) | (1u64 << (k as u64 + r.below((nb - k) as u64)))); }
        for x in xs { let b = B::of(x);
            t.must_panic(&["C23"], || format!("push({:#x}) on width {}", x, k), || v.push(b));
            if n > 0 { let i = if r.bool() { n - 1 } else { r.below(n) }; t.must_panic(&["C23"], || format!("set({}, {:#x}) on width {}", i, x, k), || v.set(i, b));
                t.must_panic(&["C23"], || format!("set_random(0, {}, {}, {:#x})", k, i, x), || v.set_random(0, k, i, b)); }
        }
    }
    t.lib(&["C18", "C23"]);
    t.check(&["C18", "C23"], v.len() == n, || format!("a refused operation changed the length from {} to {}", n, v.len()));
    for i in 0..m.len().min(v.len() as usize) { t.check(&["C18", "C23"], v.get(i as u64).u() == m[i], || format!("a refused operation changed element {} from {:#x} to {:#x} (width {})", i, m[i], v.get(i as u64).u(), k)); }
    t.lib(&[]);
}

/// every index and fill for one width and length
fn ivgrid_b<B: Blk>(t: &T, p: &[u64]) {
    const A: &[&str] = &["C02"];
    let k = 1 + (p[1] as usize - 1) % B::W; let n = p[2] as usize; let mut r = Rng::new(p[1] * 77 + p[2]);
    let mk = mask(k);
    t.lib(A);
    let x0 = if p[3] & 1 == 1 { mk } else { 0 };
    trace(|| format!("with_fill({}, {}, {:#x}), then set each element in turn", k, n, x0));
    let mut v: IntVector<B> = IntVector::with_fill(k, n as u64, B::of(x0)); let mut m = vec![x0; n];
    full_check_iv(t, &v, &m, k, &mut r, true);
    for i in 0..n { let x = if p[3] & 2 == 2 { r.next() & mk } else { !x0 & mk }; t.lib(A); v.set(i as u64, B::of(x)); m[i] = x;
        for j in i.saturating_sub(B::W / k + 1)..(i + B::W / k + 2).min(n) { let g = v.get(j as u64).u(); t.check(A, g == m[j], || format!("after set({}, {:#x}) element {} reads {:#x}, expected {:#x} (width {})", i, x, j, g, m[j], k)); } }
    full_check_iv(t, &v, &m, k, &mut r, true);
    t.lib(A);
    while let Some(e) = m.pop() { let g = v.pop().map(|x| x.u()); t.check(A, g == Some(e), || format!("pop() at length {} gave {:?}, expected {:#x} (width {})", m.len() + 1, g, e, k)); if m.len() % 3 == 0 { full_check_iv(t, &v, &m, k, &mut r, false); } t.lib(A); }
    t.check(A, v.pop().is_none() && v.is_empty(), || "pop() of an empty vector".to_string());
    if n % 2 == 1 { v = IntVector::new(k); }
    for i in 0..n { let x = r.next() & mk; v.push(B::of(x)); m.push(x); let _ = i; if n > 20 && i % 7 == 6 { t.check(A, v.len() == m.len() as u64, || format!("{} pushes give length {}", i + 1, v.len())); } }
    full_check_iv(t, &v, &m, k, &mut r, true);
    if t.tagged(&["C18", "C23"]) { iv_refuse(t, &mut v, &m, k, &mut r); }
}
pub fn ivgrid(t: &T, p: &[u64]) { disp!(p[0], ivgrid_b(t, p)) }

// ---------------------------------------------------------------- refusals
fn refuse_b<B: Blk>(t: &T, p: &[u64]) {
    const C: &[&str] = &["C23"]; const D: &[&str] = &["C20"];
    let nb = B::W; let k = 1 + (p[1] as usize - 1) % nb; let mut r = Rng::new(p[2]);
    for w in [0usize, nb + 1, nb + 2, 2 * nb, 64 + 1, 128, usize::MAX, 1 << 32, (1 << 32) + 1] { if w == 0 || w > nb {
        t.must_panic(C, || format!("IntVector::<{}>::new({})", B::NAME, w), || IntVector::<B>::new(w));
        if w > 128 { continue; }
        t.must_panic(C, || format!("IntVector::<{}>::with_capacity({}, 1)", B::NAME, w), || IntVector::<B>::with_capacity(w, 1));
        t.must_panic(C, || format!("IntVector::<{}>::block_with_capacity({}, 1)", B::NAME, w), || IntVector::<B>::block_with_capacity(w, 1));
        t.must_panic(C, || format!("IntVector::<{}>::with_fill({}, 2, 0)", B::NAME, w), || IntVector::<B>::with_fill(w, 2, B::of(0)));
        t.must_panic(C, || format!("IntVector::<{}>::with_fill({}, 0, 0)", B::NAME, w), || IntVector::<B>::with_fill(w, 0, B::of(0)));
        t.must_panic(C, || format!("IntVector::<{}>::block_with_fill({}, 2, 0)", B::NAME, w), || IntVector::<B>::block_with_fill(w, 2, B::of(0)));
        t.must_panic(C, || format!("IntVector::<{}>::with_capacity({}, 0)", B::NAME, w), || IntVector::<B>::with_capacity(w, 0));
    } }
    for w in [1, k, nb] { t.lib(C); let v = IntVector::<B>::new(w); t.check(C, v.element_bits() == w && v.len() == 0, || format!("new({}) gave width {}", w, v.element_bits())); t.lib(&[]); }
    // bit sizes beyond u64; the wrapped product is kept small
    if k > 1 {
        let mut ls = vec![];
        for j in 1..(k as u128).min(9) { let q = ((j << 64) + k as u128 - 1) / k as u128; for d in 0..4u128 { let l = q + d; if l <= u64::MAX as u128 { ls.push(l as u64); } } }
        for _ in 0..6 { let j = 1 + r.below(k as u64 - 1) as u128; let q = ((j << 64) + k as u128 - 1) / k as u128 + r.below(200) as u128; if q <= u64::MAX as u128 { ls.push(q as u64); } }
        for l in ls {
            t.must_panic(C, || format!("IntVector::<{}>::with_capacity({}, {})", B::NAME, k, l), || IntVector::<B>::with_capacity(k, l));
            t.must_panic(D, || format!("IntVector::<{}>::with_capacity({}, {})", B::NAME, k, l), || IntVector::<B>::with_capacity(k, l));
            t.must_panic(C, || format!("IntVector::<{}>::with_fill({}, {}, 0)", B::NAME, k, l), || IntVector::<B>::with_fill(k, l, B::of(0)));
            let n = r.below(40);
            let mut v = IntVector::<B>::with_fill(k, n, B::of(1));
            t.must_panic(C, || format!("resize({}, 0) of {} elements of width {}", l, n, k), || v.resize(l, B::of(0)));
            t.check(C, v.len() == n && (0..n).all(|i| v.get(i).u() == 1), || format!("a refused resize({}, ..) changed the vector", l));
            t.must_panic(D, || format!("reserve({}) at {} elements of width {}", l - n, n, k), || v.reserve(l - n));
            t.must_panic(D, || format!("reserve_exact({}) at {} elements of width {}", l - n, n, k), || v.reserve_exact(l - n));
        }
    }
    // totals beyond u64
    let n = 1 + r.below(100);
    let mut v = IntVector::<B>::with_fill(k, n, B::of(1)); let mut b = BitVector::<B>::with_fill(n, true);
    for a in [u64::MAX, u64::MAX - n + 1, u64::MAX - n / 2, u64::MAX - r.below(n)] {
        t.must_panic(D, || format!("reserve({}) at {} elements", a, n), || v.reserve(a));
        t.must_panic(D, || format!("reserve_exact({}) at {} elements", a, n), || v.reserve_exact(a));
        t.must_panic(D, || format!("reserve({}) at {} bits", a, n), || b.reserve(a));
        t.must_panic(D, || format!("reserve_exact({}) at {} bits", a, n), || b.reserve_exact(a));
    }
    for a in [usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1] {
        t.must_panic(D, || format!("block_reserve({})", a), || v.block_reserve(a));
        t.must_panic(D, || format!("block_reserve_exact({})", a), || v.block_reserve_exact(a));
        t.must_panic(D, || format!("block_reserve({})", a), || b.block_reserve(a));
        t.must_panic(D, || format!("block_reserve_exact({})", a), || b.block_reserve_exact(a));
        t.must_panic(C, || format!("BitVector::block_with_capacity({})", a), || { if nb > 8 { let _ = BitVector::<B>::block_with_capacity(a); } else { panic!() } });
        t.must_panic(C, || format!("BitVector::block_with_fill({}, 0)", a), || { if nb > 8 { let _ = BitVector::<B>::block_with_fill(a, B::of(0)); } else { panic!() } });
    }
    t.check(D, v.len() == n && b.bit_len() == n && (0..n).all(|i| v.get(i).u() == 1 && b.get_bit(i)), || "a refused reservation changed the vector".to_string());
}
pub fn refuse(t: &T, p: &[u64]) { disp!(p[0], refuse_b(t, p)) }
