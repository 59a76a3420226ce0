//! BitVec, BitVecMut, RankSupport and BitRankSupport of the primitive types: contracts of specs/10_storage.vrs, 20, 30.
use crate::{W, below};
use succinct::bit_vec::{BitVec, BitVecMut};
use succinct::rank::{RankSupport, BitRankSupport};
macro_rules! prim { ($m:ident, $t:ident) => { pub mod $m { use super::*;
    const NB: u64 = $t::NB as u64;
    #[kani::proof] pub fn lens() { let a: $t = kani::any(); assert!(a.bit_len() == NB && a.block_len() == 1 && a.limit() == NB); }
    #[kani::proof] pub fn get() { let a: $t = kani::any(); let k = below($t::NB); assert!(BitVec::get_bit(&a, k as u64) == a.b(k)); assert!(a.get_block(0) == a); }
    #[kani::proof] pub fn get_bits() { let a: $t = kani::any(); let n = below($t::NB + 1); let s = below($t::NB + 1 - n); let i = below($t::NB);
        assert!(BitVec::get_bits(&a, s as u64, n).b(i) == (i < n && a.b(i + s))); }
    #[kani::proof] pub fn set_bit() { let a: $t = kani::any(); let k = below($t::NB); let v: bool = kani::any(); let i = below($t::NB);
        let mut r = a; r.set_bit(k as u64, v); assert!(r.b(i) == if i == k { v } else { a.b(i) }); }
    #[kani::proof] pub fn set_block() { let (a, v): ($t, $t) = (kani::any(), kani::any()); let mut r = a; r.set_block(0, v); assert!(r == v); }
    #[kani::proof] pub fn set_bits() { let (a, v): ($t, $t) = (kani::any(), kani::any()); let n = below($t::NB + 1); let s = below($t::NB + 1 - n); let i = below($t::NB);
        let mut r = a; r.set_bits(s as u64, n, v); assert!(r.b(i) == if s <= i && i - s < n { v.b(i - s) } else { a.b(i) }); }
    #[kani::proof] pub fn rank() { let a: $t = kani::any(); let p = below($t::NB); let m: $t = if p == $t::NB - 1 { !0 } else { (1 << (p + 1)) - 1 };
        let want = (a & m).pop() as u64;
        assert!(a.rank1(p as u64) == want); assert!(a.rank0(p as u64) == p as u64 + 1 - want);
        assert!(a.rank(p as u64, true) == want); assert!(a.rank(p as u64, false) == p as u64 + 1 - want); }
    #[kani::proof] #[kani::should_panic] pub fn oob_get_bit() { let a: $t = kani::any(); let k: u64 = kani::any(); kani::assume(k >= NB); BitVec::get_bit(&a, k); kani::cover!(true, "returned"); }
    #[kani::proof] #[kani::should_panic] pub fn oob_get_block() { let a: $t = kani::any(); let k: usize = kani::any(); kani::assume(k >= 1); a.get_block(k); kani::cover!(true, "returned"); }
    #[kani::proof] #[kani::should_panic] pub fn oob_get_bits() { let a: $t = kani::any(); let (s, n): (u64, usize) = (kani::any(), kani::any()); kani::assume(n > $t::NB || s > ($t::NB - n) as u64);
        BitVec::get_bits(&a, s, n); kani::cover!(true, "returned"); }
    #[kani::proof] #[kani::should_panic] pub fn oob_set_bit() { let mut a: $t = kani::any(); let k: u64 = kani::any(); kani::assume(k >= NB); a.set_bit(k, kani::any()); kani::cover!(true, "returned"); }
    #[kani::proof] #[kani::should_panic] pub fn oob_set_block() { let mut a: $t = kani::any(); let k: usize = kani::any(); kani::assume(k >= 1); a.set_block(k, kani::any()); kani::cover!(true, "returned"); }
    #[kani::proof] #[kani::should_panic] pub fn oob_set_bits() { let mut a: $t = kani::any(); let (s, n): (u64, usize) = (kani::any(), kani::any()); kani::assume(n > $t::NB || s > ($t::NB - n) as u64);
        a.set_bits(s, n, kani::any()); kani::cover!(true, "returned"); }
    #[kani::proof] #[kani::should_panic] pub fn oob_rank() { let a: $t = kani::any(); let k: u64 = kani::any(); kani::assume(k >= NB); a.rank(k, kani::any()); kani::cover!(true, "returned"); }
    #[kani::proof] #[kani::should_panic] pub fn oob_rank1() { let a: $t = kani::any(); let k: u64 = kani::any(); kani::assume(k >= NB); a.rank1(k); kani::cover!(true, "returned"); }
    #[kani::proof] #[kani::should_panic] pub fn oob_rank0() { let a: $t = kani::any(); let k: u64 = kani::any(); kani::assume(k >= NB); a.rank0(k); kani::cover!(true, "returned"); }
} } }
prim!(p8, u8); prim!(p16, u16); prim!(p32, u32); prim!(p64, u64); prim!(psz, usize);
