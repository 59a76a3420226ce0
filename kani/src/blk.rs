//! The contracts of specs/10_storage.vrs, on the real BlockType implementations.
use crate::{W, below};
use succinct::storage::BlockType;
macro_rules! blk { ($m:ident, $t:ident, $lg:expr) => { pub mod $m { use super::*;
    const NB: u64 = $t::NB as u64;
    #[kani::proof] pub fn index() {
        let x: u64 = kani::any();
        assert!($t::nbits() == $t::NB); assert!($t::lg_nbits() == $lg);
        assert!($t::div_nbits(x) as u64 == x / NB); assert!($t::checked_div_nbits(x) == Some((x / NB) as usize));
        assert!($t::mod_nbits(x) as u64 == x % NB);
        let c = x / NB + (x % NB != 0) as u64;
        assert!($t::ceil_div_nbits(x) as u64 == c); assert!($t::checked_ceil_div_nbits(x) == Some(c as usize));
        assert!($t::last_block_bits(x) as u64 == if x % NB == 0 { NB } else { x % NB });
    }
    #[kani::proof] pub fn mul_nbits() { let x: usize = kani::any(); kani::assume(x as u64 <= u64::MAX / NB); assert!($t::mul_nbits(x) == x as u64 * NB); }
    #[kani::proof] pub fn lg_nbits_mask() { assert!($t::lg_nbits_mask::<u8>() as usize == $t::NB - 1); assert!($t::lg_nbits_mask::<u16>() as usize == $t::NB - 1);
        assert!($t::lg_nbits_mask::<u32>() as usize == $t::NB - 1); assert!($t::lg_nbits_mask::<u64>() as usize == $t::NB - 1); assert!($t::lg_nbits_mask::<usize>() as usize == $t::NB - 1); }
    #[kani::proof] pub fn low_mask() { let k = below($t::NB + 1); let i = below($t::NB); assert!($t::low_mask(k).b(i) == (i < k)); }
    #[kani::proof] pub fn nth_mask() { let k = below($t::NB); let i = below($t::NB); assert!($t::nth_mask(k).b(i) == (i == k)); }
    #[kani::proof] pub fn get_bit() { let a: $t = kani::any(); let k = below($t::NB); assert!(BlockType::get_bit(a, k) == a.b(k)); }
    #[kani::proof] pub fn with_bit() { let a: $t = kani::any(); let k = below($t::NB); let v: bool = kani::any(); let i = below($t::NB);
        assert!(a.with_bit(k, v).b(i) == if i == k { v } else { a.b(i) }); }
    #[kani::proof] pub fn get_bits() { let a: $t = kani::any(); let n = below($t::NB + 1); let s = below($t::NB + 1 - n); let i = below($t::NB);
        assert!(BlockType::get_bits(a, s, n).b(i) == (i < n && a.b(i + s))); }
    #[kani::proof] pub fn with_bits() { let (a, v): ($t, $t) = (kani::any(), kani::any()); let n = below($t::NB + 1); let s = below($t::NB + 1 - n); let i = below($t::NB);
        assert!(a.with_bits(s, n, v).b(i) == if s <= i && i - s < n { v.b(i - s) } else { a.b(i) }); }
    #[kani::proof] pub fn floor_lg() { let a: $t = kani::any(); let r = a.floor_lg(); if a == 0 { assert!(r == 0); } else { assert!(r < $t::NB && a >> r == 1); } }
    #[kani::proof] pub fn ceil_lg() { let a: $t = kani::any(); let r = a.ceil_lg(); if a <= 1 { assert!(r == 0); } else { assert!(r >= 1 && r <= $t::NB && (a - 1) >> (r - 1) == 1); } }
    #[kani::proof] #[kani::should_panic] pub fn oob_get_bit() { let a: $t = kani::any(); let k: usize = kani::any(); kani::assume(k >= $t::NB); BlockType::get_bit(a, k); kani::cover!(true, "returned"); }
    #[kani::proof] #[kani::should_panic] pub fn oob_with_bit() { let a: $t = kani::any(); let k: usize = kani::any(); kani::assume(k >= $t::NB); a.with_bit(k, kani::any()); kani::cover!(true, "returned"); }
    #[kani::proof] #[kani::should_panic] pub fn oob_get_bits() { let a: $t = kani::any(); let (s, n): (usize, usize) = (kani::any(), kani::any()); kani::assume(n > $t::NB || s > $t::NB - n);
        BlockType::get_bits(a, s, n); kani::cover!(true, "returned"); }
    #[kani::proof] #[kani::should_panic] pub fn oob_with_bits() { let a: $t = kani::any(); let (s, n): (usize, usize) = (kani::any(), kani::any()); kani::assume(n > $t::NB || s > $t::NB - n);
        a.with_bits(s, n, kani::any()); kani::cover!(true, "returned"); }
} } }
blk!(k8, u8, 3); blk!(k16, u16, 4); blk!(k32, u32, 5); blk!(k64, u64, 6); blk!(ksz, usize, 6);
