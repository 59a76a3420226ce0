//! Space usage against the allocator; block I/O.
use crate::common::*;
use crate::fw::*;
use crate::disp;
use succinct::bit_vec::*;
use succinct::int_vec::*;
use succinct::rank::*;
use succinct::select::*;
use succinct::stream::*;
use succinct::SpaceUsage;
use succinct::storage::BlockType;
use byteorder::{BigEndian, LittleEndian};

const C: &[&str] = &["C21"];
/// heap_bytes() is what the allocator handed out for the value
fn meas<X: SpaceUsage>(t: &T, what: &str, f: impl FnOnce() -> X) {
    let before = live();
    let x = f();
    let got = (live() - before) as usize;
    t.lib(C);
    let h = x.heap_bytes();
    t.check(C, h == got, || format!("{}: heap_bytes() = {}, but it owns {} heap bytes", what, h, got));
    t.check(C, X::stack_bytes() == std::mem::size_of::<X>(), || format!("{}: stack_bytes() = {}, size_of = {}", what, X::stack_bytes(), std::mem::size_of::<X>()));
    t.check(C, x.total_bytes() == X::stack_bytes() + h, || format!("{}: total_bytes() = {}, stack {} + heap {}", what, x.total_bytes(), X::stack_bytes(), h));
    t.check(C, !X::is_stack_only() || h == 0, || format!("{}: stack-only with {} heap bytes", what, h));
    t.lib(&[]);
    drop(x);
}
fn so<X: SpaceUsage>(t: &T, what: &str, e: bool) { t.lib(C); t.check(C, X::is_stack_only() == e, || format!("{}::is_stack_only() = {}", what, X::is_stack_only())); t.lib(&[]); }
fn vc<X>(r: &mut Rng, mut f: impl FnMut() -> X) -> Vec<X> { let n = r.below(7) as usize; let mut v = Vec::with_capacity(n + r.below(5) as usize); for _ in 0..n { v.push(f()); } v }

fn space_b<B: Blk + std::fmt::Debug>(t: &T, p: &[u64]) {
    let mut r = Rng::new(p[1]); let n = r.below(400) as usize; let cap = r.below(20) as usize;
    let r1 = &mut r;
    meas(t, "primitive", || B::of(7));
    meas(t, "Vec<B>", || Vec::<B>::with_capacity(cap));
    meas(t, "Vec<B> filled", || { let mut v = vec![B::of(1); cap]; v.reserve(3); v });
    meas(t, "BitVector", || BitVector::<B>::with_capacity(n as u64));
    let m = rand_bits(r1, n);
    meas(t, "BitVector filled", || bv_of::<B>(&m));
    meas(t, "BitVector cleared", || { let mut v = bv_of::<B>(&m); v.clear(); v });
    meas(t, "BitVector truncated", || { let mut v = bv_of::<B>(&m); v.truncate(n as u64 / 3); v });
    meas(t, "IntVector", || { let mut v = IntVector::<B>::with_fill(3, n as u64, B::of(5)); v.push(B::of(1)); v });
    meas(t, "IntVector reserved", || { let mut v = IntVector::<B>::new(5); v.reserve(n as u64); v });
    meas(t, "Box<B>", || Box::new(B::of(3)));
    meas(t, "Box<BitVector>", || Box::new(bv_of::<B>(&m)));
    meas(t, "Box<Box<Vec<B>>>", || Box::new(Box::new(Vec::<B>::with_capacity(cap))));
    meas(t, "Vec<Vec<B>>", || vc(r1, || Vec::<B>::with_capacity(3)));
    meas(t, "Vec<Box<B>>", || vc(r1, || Box::new(B::of(1))));
    let k = r1.below(5) as usize;
    meas(t, "Vec<Vec<Vec<u8>>>", || vc(r1, || { let mut v = Vec::with_capacity(4); for i in 0..k { v.push(Vec::<u8>::with_capacity(i * 3)); } v }));
    // neighbours whose sizes differ by little multiples, so that totals and heaps of different elements coincide
    let word = std::mem::size_of::<usize>();
    let ks: Vec<usize> = (0..r1.below(14)).map(|_| word * r1.below(9) as usize).collect();
    meas(t, "Vec<Vec<u8>> of near sizes", || ks.iter().map(|k| Vec::<u8>::with_capacity(*k)).collect::<Vec<_>>());
    meas(t, "Vec<Vec<u64>> of near sizes", || ks.iter().map(|k| Vec::<u64>::with_capacity(*k / word)).collect::<Vec<_>>());
    meas(t, "Vec<BitVector> of near sizes", || ks.iter().map(|k| BitVector::<B>::with_capacity(8 * *k as u64)).collect::<Vec<_>>());
    meas(t, "Vec<IntVector> of near sizes", || ks.iter().map(|k| IntVector::<B>::with_capacity(3, *k as u64)).collect::<Vec<_>>());
    meas(t, "Vec<(Vec<u8>, Vec<u8>)> of near sizes", || ks.iter().map(|k| (Vec::<u8>::with_capacity(*k), Vec::<u8>::with_capacity(72 - *k))).collect::<Vec<_>>());
    meas(t, "Vec<Box<Vec<u8>>> of near sizes", || ks.iter().map(|k| Box::new(Vec::<u8>::with_capacity(*k))).collect::<Vec<_>>());
    meas(t, "Vec<BitVector>", || vc(r1, || bv_of::<B>(&m)));
    meas(t, "Vec<(B, Vec<u16>)>", || vc(r1, || (B::of(1), Vec::<u16>::with_capacity(k))));
    meas(t, "Vec<(B, u8)>", || vc(r1, || (B::of(1), 0u8)));
    meas(t, "JacobsonRank<BitVector>", || JacobsonRank::new(bv_of::<B>(&m)));
    meas(t, "JacobsonRank<Vec<B>>", || JacobsonRank::new(blocks_of::<B>(&m)));
    meas(t, "Rank9<BitVector>", || Rank9::new(bv_of::<u64>(&m)));
    meas(t, "Rank9<Vec<u64>>", || Rank9::new(blocks_of::<u64>(&m)));
    meas(t, "BinSearchSelect<JacobsonRank>", || BinSearchSelect::new(JacobsonRank::new(bv_of::<B>(&m))));
    meas(t, "BinSearchSelect<Rank9>", || BinSearchSelect::new(Rank9::new(bv_of::<u64>(&m))));
    meas(t, "BinSearchSelect<u64>", || BinSearchSelect::new(5u64));
    { let v = bv_of::<B>(&m); let mut w = v.clone(); meas(t, "&BitVector", || &v); meas(t, "BitSlice", || BitSlice::new(&v, ..)); meas(t, "BitSliceMut", || BitSliceMut::new(&mut w, ..)); let b = blocks_of::<B>(&m); meas(t, "&[B]", || &b[..]); meas(t, "JacobsonRank<&[B]>", || JacobsonRank::new(&b[..])); meas(t, "(&BitVector, Vec<u8>)", || (&v, Vec::<u8>::with_capacity(9))); }
    let g = |i: usize| Vec::<u8>::with_capacity(i * 7 + 1);
    // every tuple width, with a distinct size at every place
    meas(t, "1-tuple", || (g(1),)); meas(t, "2-tuple", || (g(1), g(2))); meas(t, "3-tuple", || (g(1), g(2), g(3))); meas(t, "4-tuple", || (g(1), g(2), g(3), g(4)));
    meas(t, "5-tuple", || (g(1), g(2), g(3), g(4), g(5))); meas(t, "6-tuple", || (g(1), g(2), g(3), g(4), g(5), g(6))); meas(t, "7-tuple", || (g(1), g(2), g(3), g(4), g(5), g(6), g(7)));
    meas(t, "8-tuple", || (g(1), g(2), g(3), g(4), g(5), g(6), g(7), g(8))); meas(t, "9-tuple", || (g(1), g(2), g(3), g(4), g(5), g(6), g(7), g(8), g(9)));
    meas(t, "10-tuple", || (g(1), g(2), g(3), g(4), g(5), g(6), g(7), g(8), g(9), g(10))); meas(t, "11-tuple", || (g(1), g(2), g(3), g(4), g(5), g(6), g(7), g(8), g(9), g(10), g(11)));
    meas(t, "12-tuple", || (g(1), g(2), g(3), g(4), g(5), g(6), g(7), g(8), g(9), g(10), g(11), g(12)));
    meas(t, "mixed tuple", || (1u8, g(3), Box::new(g(2)), bv_of::<B>(&m), (g(1), 2u32)));
    meas(t, "unit", || ());
    meas(t, "(u8, u64, i16)", || (1u8, 2u64, 3i16));
}
pub fn space(t: &T, p: &[u64]) { disp!(p[0], space_b(t, p)) }

pub fn spaceflags(t: &T, _p: &[u64]) {
    type V = Vec<u8>;
    so::<()>(t, "()", true); so::<u8>(t, "u8", true); so::<u16>(t, "u16", true); so::<u32>(t, "u32", true); so::<u64>(t, "u64", true); so::<usize>(t, "usize", true); so::<i8>(t, "i8", true); so::<i16>(t, "i16", true); so::<i32>(t, "i32", true); so::<i64>(t, "i64", true); so::<isize>(t, "isize", true); so::<f32>(t, "f32", true); so::<f64>(t, "f64", true);
    so::<&u8>(t, "&u8", true); so::<&V>(t, "&Vec", true); so::<&[V]>(t, "&[Vec]", true);
    so::<V>(t, "Vec<u8>", false); so::<Vec<V>>(t, "Vec<Vec>", false); so::<Box<u8>>(t, "Box<u8>", false); so::<BitVector<u8>>(t, "BitVector", false); so::<IntVector<u8>>(t, "IntVector", false); so::<JacobsonRank<BitVector>>(t, "JacobsonRank", false); so::<JacobsonRank<u8>>(t, "JacobsonRank<u8>", false); so::<Rank9<BitVector<u64>>>(t, "Rank9", false);
    so::<BinSearchSelect<u8>>(t, "BinSearchSelect<u8>", true); so::<BinSearchSelect<JacobsonRank<BitVector>>>(t, "BinSearchSelect<JacobsonRank>", false); so::<BitSlice<'static, BitVector>>(t, "BitSlice", true); so::<BitSliceMut<'static, BitVector>>(t, "BitSliceMut", true);
    macro_rules! tup { ($($a:ty),*) => { so::<($($a,)*)>(t, concat!("(", $(stringify!($a), ","),*, ")"), [$(<$a as SpaceUsage>::is_stack_only()),*].iter().all(|x| *x)) } }
    tup!(u8); tup!(V); tup!(u8, u8); tup!(u8, V); tup!(V, u8); tup!(V, V); tup!(u8, u8, u8); tup!(u8, u8, V); tup!(u8, V, u8); tup!(V, u8, u8); tup!(u8, u8, u8, V); tup!(V, u8, u8, u8); tup!(u8, V, u8, u8); tup!(u8, u8, V, u8);
    tup!(u8, u8, u8, u8); tup!(u8, u8, u8, u8, V); tup!(V, u8, u8, u8, u8); tup!(u8, u8, u8, u8, u8, V); tup!(V, u8, u8, u8, u8, u8); tup!(u8, u8, u8, u8, u8, u8, V); tup!(u8, u8, u8, V, u8, u8, u8, u8); tup!(V, u8, u8, u8, u8, u8, u8, u8); tup!(u8, u8, u8, u8, u8, u8, u8, V);
    tup!(u8, u8, u8, u8, u8, u8, u8, u8, V); tup!(V, u8, u8, u8, u8, u8, u8, u8, u8); tup!(u8, u8, u8, u8, u8, u8, u8, u8, u8, V); tup!(V, u8, u8, u8, u8, u8, u8, u8, u8, u8); tup!(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, V); tup!(u8, u8, u8, u8, u8, V, u8, u8, u8, u8, u8); tup!(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, V); tup!(V, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8); tup!(u8, u8, u8, u8, u8, u8, V, u8, u8, u8, u8, u8); tup!(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
    // macro for user types
    let _ = BitBuffer::<BitVector<u8>>::new();
}

// ---------------------------------------------------------------- block I/O
/// interrupted on the calls whose bits are set in `intr`, as std allows at any time
struct Rdr<'a> { d: &'a [u8], pos: usize, chunk: usize, intr: u64 }
fn intr(i: &mut u64) -> bool { let b = *i & 1 == 1; *i >>= 1; b }
impl<'a> std::io::Read for Rdr<'a> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { if intr(&mut self.intr) { return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "vx")); } let n = b.len().min(self.chunk).min(self.d.len() - self.pos); b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]); self.pos += n; Ok(n) } }
struct Wtr { d: Vec<u8>, chunk: usize, limit: usize, intr: u64 }
impl std::io::Write for Wtr { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if intr(&mut self.intr) { return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "vx")); } if self.d.len() >= self.limit { return Err(std::io::Error::new(std::io::ErrorKind::PermissionDenied, "vx-sink")); } let n = b.len().min(self.chunk); self.d.extend_from_slice(&b[..n]); Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }

fn bio_b<B: Blk>(t: &T, p: &[u64]) {
    const C: &[&str] = &["C22"]; let nby = B::W / 8; let x = p[1] & mask(B::W); let mut r = Rng::new(p[2]); let b = B::of(x);
    t.lib(C);
    for big in [false, true] {
        let e: Vec<u8> = if big { x.to_be_bytes()[8 - nby..].to_vec() } else { x.to_le_bytes()[..nby].to_vec() };
        let pre: Vec<u8> = (0..r.below(4)).map(|_| r.next() as u8).collect();
        let mut w = Wtr { d: pre.clone(), chunk: 1 + r.below(9) as usize, limit: 1000, intr: if r.one_in(3) { r.next() & r.next() } else { 0 } };
        let o = if big { b.write_block::<_, BigEndian>(&mut w) } else { b.write_block::<_, LittleEndian>(&mut w) };
        let mut want = pre.clone(); want.extend(&e);
        t.check(C, o.is_ok() && w.d == want, || format!("{}: writing {:#x} ({} endian) produced {:x?}, expected {:x?}", B::NAME, x, if big { "big" } else { "little" }, &w.d[pre.len()..], e));
        let tail = r.below(5) as usize; let mut d = e.clone(); for _ in 0..tail { d.push(r.next() as u8); }
        let mut rd = Rdr { d: &d, pos: 0, chunk: 1 + r.below(9) as usize, intr: if r.one_in(3) { r.next() & r.next() } else { 0 } };
        let g = if big { B::read_block::<_, BigEndian>(&mut rd) } else { B::read_block::<_, LittleEndian>(&mut rd) };
        t.check(C, matches!(&g, Ok(y) if y.u() == x) && rd.pos == nby, || format!("{}: reading {:x?} ({} endian) gave {:x?} using {} bytes, expected {:#x}", B::NAME, d, if big { "big" } else { "little" }, g.as_ref().map(|y| y.u()).ok(), rd.pos, x));
        for k in 0..nby { let mut rd = Rdr { d: &d[..k], pos: 0, chunk: if k % 2 == 0 { 8 } else { 1 + r.below(9) as usize }, intr: 0 }; let g = if big { B::read_block::<_, BigEndian>(&mut rd) } else { B::read_block::<_, LittleEndian>(&mut rd) }; t.check(C, g.is_err(), || format!("{}: reading a block from {} bytes succeeded", B::NAME, k)); }
        let mut w = Wtr { d: vec![], chunk: 1, limit: r.below(nby as u64) as usize, intr: 0 }; let o = if big { b.write_block::<_, BigEndian>(&mut w) } else { b.write_block::<_, LittleEndian>(&mut w) };
        t.check(C, o.is_err(), || format!("{}: a failing sink was not reported", B::NAME));
    }
    t.lib(&[]);
}
pub fn bio(t: &T, p: &[u64]) { disp!(p[0], bio_b(t, p)) }
