//! What the Verus layer assumes of the primitive block types as implementations of num_traits::PrimInt.
use crate::{W, below};
use num_traits::PrimInt;
macro_rules! laws { ($m:ident, $t:ident) => { pub mod $m { use super::*;
    #[kani::proof] pub fn law_bitops() {
        let (a, b): ($t, $t) = (kani::any(), kani::any()); let i = below($t::NB);
        assert!((a & b).b(i) == (a.b(i) && b.b(i))); assert!((a | b).b(i) == (a.b(i) || b.b(i))); assert!((!a).b(i) == !a.b(i));
        assert!(!<$t as num_traits::Zero>::zero().b(i)); assert!(<$t as num_traits::One>::one().b(i) == (i == 0));
        assert!(!(<$t as num_traits::Zero>::zero() != 0)); assert!(<$t as num_traits::One>::one() == 1);
    }
    #[kani::proof] pub fn law_ext() { let (a, b): ($t, $t) = (kani::any(), kani::any()); if a != b { let i = (a ^ b).trailing_zeros() as usize; assert!(i < $t::NB && a.b(i) != b.b(i)); } }
    #[kani::proof] pub fn law_shift() {
        let a: $t = kani::any(); let i = below($t::NB); let k = below($t::NB);
        assert!((a << k).b(i) == (i >= k && a.b(i.wrapping_sub(k)))); assert!((a >> k).b(i) == a.b(i + k));
        assert!(PrimInt::unsigned_shr(a, k as u32).b(i) == a.b(i + k)); assert!(PrimInt::unsigned_shl(a, k as u32).b(i) == (i >= k && a.b(i.wrapping_sub(k))));
    }
    #[kani::proof] pub fn law_le_mask() { let a: $t = kani::any(); let k = below($t::NB + 1);
        let m: $t = if k == $t::NB { !0 } else { (1 << k) - 1 }; assert!((a <= m) == (k == $t::NB || a >> k == 0)); }
    /// popcount as the sum of the bits, defined by peeling off the top bit: ones(x, n) = ones(x, n-1) + bit(n-1)
    #[kani::proof] pub fn law_popcount_step() { let a: $t = kani::any(); let n = 1 + below($t::NB);
        let m = |n: usize| -> $t { if n == $t::NB { !0 } else { (1 << n) - 1 } };
        let (hi, lo) = (a & m(n), a & m(n - 1));
        assert!(PrimInt::count_ones(hi) == PrimInt::count_ones(lo) + a.b(n - 1) as u32); assert!(PrimInt::count_ones(0 as $t) == 0); }
    #[kani::proof] pub fn law_lz() { let a: $t = kani::any(); let z = PrimInt::leading_zeros(a) as usize; let t = PrimInt::trailing_zeros(a) as usize;
        if a == 0 { assert!(z == $t::NB && t == $t::NB); } else { assert!(z < $t::NB && a >> ($t::NB - 1 - z) == 1); assert!(t < $t::NB && a.b(t) && a & (((1 as $t) << t) - 1) == 0); } }
    #[kani::proof] pub fn conv() { let a: $t = kani::any(); use num_traits::ToPrimitive;
        assert!(a.to_u64() == Some(a as u64)); assert!(a.to_usize() == Some(a as usize));
        let v: u64 = kani::any(); let r: Option<$t> = num_traits::cast(v); assert!(r == if v <= $t::MAX as u64 { Some(v as $t) } else { None }); }
} } }
laws!(l8, u8); laws!(l16, u16); laws!(l32, u32); laws!(l64, u64); laws!(lsz, usize);
