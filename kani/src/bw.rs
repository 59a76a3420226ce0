//! Broadword operations.
use crate::{W, below};
use succinct::broadword::*;
use succinct::rank::{RankSupport, BitRankSupport};
use succinct::select::Select1Support;
fn low(n: u64) -> u64 { if n >= 64 { !0 } else { (1 << n) - 1 } }
fn lane(x: u64, i: usize) -> u8 { (x >> (8 * i as u32)) as u8 }
#[kani::proof] pub fn consts() { assert!(L8 == 0x0101_0101_0101_0101 && H8 == 0x8080_8080_8080_8080); }
#[kani::proof] pub fn count() { let x: u64 = kani::any(); assert!(count_ones(x) as u32 == x.count_ones()); }
#[kani::proof] pub fn select_some() { let x: u64 = kani::any(); let r: usize = kani::any(); if let Some(p) = select1(r, x) { assert!(p < 64); assert!((x >> p) & 1 == 1); assert!((x & low(p as u64)).count_ones() as usize == r); } }
#[kani::proof] pub fn select_none() { let x: u64 = kani::any(); let r: usize = kani::any(); if select1(r, x).is_none() { assert!(x.count_ones() as usize <= r); } }
#[kani::proof] pub fn select_raw() { let x: u64 = kani::any(); let r: usize = kani::any(); let p = select1_raw(r, x); assert!(p == 72 || p < 64); assert!(select1(r, x) == if p == 72 { None } else { Some(p) }); }
#[kani::proof] pub fn lanes_u_le8() { let (x, y): (u64, u64) = (kani::any(), kani::any()); let i = below(8); assert!(lane(u_le8(x, y), i) == if lane(x, i) <= lane(y, i) { 0x80 } else { 0 }); }
#[kani::proof] pub fn lanes_le8() { let (x, y): (u64, u64) = (kani::any(), kani::any()); let i = below(8); assert!(lane(le8(x, y), i) == if lane(x, i) as i8 <= lane(y, i) as i8 { 0x80 } else { 0 }); }
#[kani::proof] pub fn lanes_u_nz8() { let x: u64 = kani::any(); let i = below(8); assert!(lane(u_nz8(x), i) == if lane(x, i) != 0 { 0x80 } else { 0 }); }
#[kani::proof] pub fn rank() { let x: u64 = kani::any(); let p: u64 = kani::any(); kani::assume(p < 64); let b = Broadword(x); let w = (x & low(p + 1)).count_ones() as u64;
    assert!(b.limit() == 64); assert!(b.rank1(p) == w); assert!(b.rank0(p) == p + 1 - w); let v: bool = kani::any(); assert!(b.rank(p, v) == if v { w } else { p + 1 - w }); }
#[kani::proof] pub fn select_support() { let x: u64 = kani::any(); let r: u64 = kani::any(); assert!(Broadword(x).select1(r) == select1(r as usize, x).map(|p| p as u64)); }
#[kani::proof] #[kani::should_panic] pub fn oob_rank() { let k: u64 = kani::any(); kani::assume(k >= 64); Broadword(kani::any()).rank(k, kani::any()); kani::cover!(true, "returned"); }
#[kani::proof] #[kani::should_panic] pub fn oob_rank1() { let k: u64 = kani::any(); kani::assume(k >= 64); Broadword(kani::any()).rank1(k); kani::cover!(true, "returned"); }
