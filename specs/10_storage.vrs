//@ use storage
use std::mem;
use crate::vxio as io;
use crate::vxio::{ByteOrder, Read, Write};
use crate::vxp::*;
use crate::num_traits::*;
use crate::rank::traits::*;

//@ trait storage::BlockType
supertraits: PrimInt + BitRankSupport + crate::space_usage::SpaceUsage
    spec fn val(self) -> nat;
    proof fn law_shr()
        ensures forall|a: Self, k: usize, i: int| k < Self::nb() ==> #[trigger] a.shr_spec(k).bit(i) == (0 <= i && a.bit(i + k));
    proof fn law_rank(self, n: int)
        requires 0 <= n <= Self::nb()
        ensures self.wf_rank(), self.rank_limit() == Self::nb(), self.occ(true, n) == ones(bits_of(self), n), self.occ(false, n) == n - ones(bits_of(self), n);
    proof fn law_ord() ensures Self::obeys_partial_cmp_spec();
    /// comparing with a low mask is a test of the bits above it
    proof fn law_le_mask(self, m: Self, k: int)
        requires 0 <= k <= Self::nb(), forall|i: int| #[trigger] m.bit(i) == (0 <= i < k)
        ensures (self.partial_cmp_spec(&m) == Some(core::cmp::Ordering::Less) || self.partial_cmp_spec(&m) == Some(core::cmp::Ordering::Equal))
                <==> (forall|i: int| k <= i < Self::nb() ==> !#[trigger] self.bit(i));

//@ skip
storage::<AddressasPartialEq>

//@ fn storage::BlockType::nbits
ensures r == Self::nb()
//@ fn storage::BlockType::div_nbits
ensures r == index as int / Self::nb() as int
//@ fn storage::BlockType::checked_div_nbits
ensures r == Some((index as int / Self::nb() as int) as usize)
//@ fn storage::BlockType::ceil_div_nbits
ensures r == cdiv(index as int, Self::nb() as int)
//@ fn storage::BlockType::checked_ceil_div_nbits
ensures r == Some(cdiv(index as int, Self::nb() as int) as usize)
//@ fn storage::BlockType::mod_nbits
ensures r == index as int % Self::nb() as int
//@ fn storage::BlockType::mul_nbits
requires index * Self::nb() <= u64::MAX
ensures r == index * Self::nb()
//@ fn storage::BlockType::last_block_bits
ensures r == (if len as int % Self::nb() as int == 0 { Self::nb() as int } else { len as int % Self::nb() as int })
//@ fn storage::BlockType::lg_nbits
ensures Self::nb() == 8 ==> r == 3, Self::nb() == 16 ==> r == 4, Self::nb() == 32 ==> r == 5, Self::nb() == 64 ==> r == 6
//@ fn storage::BlockType::low_mask
requires element_bits <= Self::nb()
ensures forall|i: int| #[trigger] r.bit(i) == (0 <= i < element_bits)
//@ fn storage::BlockType::nth_mask
requires bit_index < Self::nb()
ensures forall|i: int| #[trigger] r.bit(i) == (i == bit_index)
//@ fn storage::BlockType::get_bit
requires panics_allowed() || bit_index < Self::nb()
ensures bit_index < Self::nb(), r == self.bit(bit_index as int)
//@ fn storage::BlockType::with_bit
requires panics_allowed() || bit_index < Self::nb()
ensures bit_index < Self::nb(), forall|i: int| #[trigger] r.bit(i) == (if i == bit_index { bit_value } else { self.bit(i) })
//@ fn storage::BlockType::get_bits
requires panics_allowed() || start + len <= Self::nb()
ensures start + len <= Self::nb(), forall|i: int| #[trigger] r.bit(i) == (0 <= i < len && self.bit(i + start))
//@ fn storage::BlockType::with_bits
requires panics_allowed() || start + len <= Self::nb()
ensures start + len <= Self::nb(), forall|i: int| #[trigger] r.bit(i) == (if start <= i < start + len { value.bit(i - start) } else { self.bit(i) })
//@ fn storage::BlockType::ceil_lg
ensures r <= 64, self.val() <= vstd::arithmetic::power2::pow2(r as nat), r > 0 ==> vstd::arithmetic::power2::pow2((r - 1) as nat) < self.val()
//@ fn storage::BlockType::floor_lg
ensures r < 64, self.val() > 0 ==> vstd::arithmetic::power2::pow2(r as nat) <= self.val() < vstd::arithmetic::power2::pow2((r + 1) as nat), self.val() == 0 ==> r == 0
//@ fn storage::BlockType::ceil_div
requires divisor.val() > 0
ensures r.val() == cdiv(self.val() as int, divisor.val() as int)
//@ entry
proof { lemma_ceil(self.val() as int, divisor.val() as int); }

//@ fn storage::Address::new
requires true
ensures r.block_index == bit_index as int / Block::nb() as int, r.bit_offset == bit_index as int % Block::nb() as int
//@ entry
proof { Block::law_nb(); }

//@ fn storage::Address::bit_index
requires self.block_index * Block::nb() + Block::nb() <= u64::MAX, self.bit_offset < Block::nb()
ensures r == self.block_index * Block::nb() + self.bit_offset
//@ entry
proof { Block::law_nb(); }
//@ mod storage
pub proof fn lemma_ceil(n: int, d: int)
    requires 0 <= n, 0 < d
    ensures n % d == 0 ==> n / d == cdiv(n, d), n % d != 0 ==> n / d + 1 == cdiv(n, d) && n / d + 1 <= n,
{
    assert(n == d * (n / d) + n % d && 0 <= n % d < d) by (nonlinear_arith) requires 0 < d;
    let q = n / d; let r = n % d;
    if r == 0 { assert(cdiv(n, d) == q) by { assert((d * q + (d - 1)) / d == q) by (nonlinear_arith) requires 0 < d; } }
    else { assert((d * (q + 1) + (r - 1)) / d == q + 1) by (nonlinear_arith) requires 0 < d, 1 <= r < d; assert(d * (q + 1) == d * q + d) by (nonlinear_arith);
       assert(q + 1 <= n) by (nonlinear_arith) requires n == d * q + r, 1 <= r < d, 0 <= n, 0 < d, q >= 0;
     }
}
//@ witness storage
//$ foreach TT,NN in u8,8 u16,16 u32,32 u64,64 usize,64
//@ impl storage::<TT asBlockType>
    open spec fn val(self) -> nat { self as nat }
    proof fn law_rank(self, n: int) { lemma_ones_bound(bits_of(self), n); }
    proof fn law_ord() {}
    proof fn law_shr() { Self::law_shift(); }
    proof fn law_le_mask(self, m: Self, k: int) { lemma_le_TT(self, m, k); }
//$ end
//@ include
rank::prim
//@ use rank::prim
use crate::vxp::*;
use crate::rank::traits::*;
use crate::storage::BlockType;
//$ foreach TT,NN in u8,8 u16,16 u32,32 u64,64 usize,64
//@ impl rank::prim::<TT asRankSupport>
    open spec fn wf_rank(&self) -> bool { true }
    open spec fn rank_limit(&self) -> nat { NN }
    open spec fn occ(&self, v: bool, n: int) -> nat {
        if v { ones(bits_of(*self), n) } else { (n - ones(bits_of(*self), n)) as nat }
    }
    proof fn law_occ(&self, v: bool) {
        assert forall|i: int| 0 <= i < self.rank_limit() implies #[trigger] self.occ(v, i) <= self.occ(v, i + 1) <= self.occ(v, i) + 1 by {
            lemma_ones_bound(bits_of(*self), i); lemma_ones_bound(bits_of(*self), i + 1);
        }
    }
//@ impl rank::prim::<TT asBitRankSupport>
    proof fn law_bitocc(&self, n: int) { lemma_ones_bound(bits_of(*self), n); }
//$ end
//@ fn storage::BlockType::read_block
ensures io::took(old(source).rest(), final(source).rest(), old(source).sound(), r, T::big())
//@ fn storage::BlockType::write_block
ensures io::gave(old(sink).written(), final(sink).written(), old(sink).accepts(Self::nb() / 8), *self, r, T::big())
//@ fn storage::<usize as BlockType>::read_block | storage::<usize as BlockType>::write_block
//@ entry
proof { io::lemma_usize_bytes(); }
//@ fn storage::BlockType::lg_nbits_mask
//@ sig
fn lg_nbits_mask() -> (r: u64)
//@ subst
\bResult :: => u64 ::
//@ fn storage::BlockType::lg_nbits_mask
ensures forall|i: int| #[trigger] r.bit(i) == (0 <= i < (if Self::nb() == 8 { 3int } else if Self::nb() == 16 { 4 } else if Self::nb() == 32 { 5 } else { 6 }))
//@ mod storage
// ---- machine integers, concretely
pub proof fn lemma_one(n: nat) ensures vstd::arithmetic::power2::pow2(0) == 1, vstd::arithmetic::power2::pow2(1) == 2, vstd::arithmetic::power2::pow2(n) >= 1, vstd::arithmetic::power2::pow2(n + 1) == 2 * vstd::arithmetic::power2::pow2(n)
{ vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma_pow2_pos(n); vstd::arithmetic::power2::lemma_pow2_unfold(n + 1); }
pub proof fn lemma_lg_nb()
    ensures
//$ foreach LL,NN in 3,8 4,16 5,32 6,64
        forall|r: nat| (#[trigger] vstd::arithmetic::power2::pow2(r)) <= NN && NN < vstd::arithmetic::power2::pow2((r + 1) as nat) ==> r == LL,
//$ end
{
    vstd::arithmetic::power2::lemma2_to64();
//$ foreach LL,NN in 3,8 4,16 5,32 6,64
    assert forall|r: nat| (#[trigger] vstd::arithmetic::power2::pow2(r)) <= NN && NN < vstd::arithmetic::power2::pow2((r + 1) as nat) implies r == LL by {
        if r > LL { vstd::arithmetic::power2::lemma_pow2_strictly_increases(LL, r); }
        if r + 1 < LL { vstd::arithmetic::power2::lemma_pow2_strictly_increases((r + 1) as nat, LL); }
    }
//$ end
}
pub proof fn lemma_shr_nb(x: u64)
    ensures x >> 3usize == x / 8, x >> 4usize == x / 16, x >> 5usize == x / 32, x >> 6usize == x / 64
{
    assert(x >> 3u64 == x / 8 && x >> 4u64 == x / 16 && x >> 5u64 == x / 32 && x >> 6u64 == x / 64) by (bit_vector);
    assert(x >> 3usize == x >> 3u64 && x >> 4usize == x >> 4u64 && x >> 5usize == x >> 5u64 && x >> 6usize == x >> 6u64) by (bit_vector);
}
pub proof fn lemma_shl_nb(x: u64)
    ensures x * 8 <= u64::MAX ==> x << 3usize == x * 8, x * 16 <= u64::MAX ==> x << 4usize == x * 16, x * 32 <= u64::MAX ==> x << 5usize == x * 32, x * 64 <= u64::MAX ==> x << 6usize == x * 64
{
    assert(x <= 0x1fff_ffff_ffff_ffff ==> x << 3usize == x * 8) by (bit_vector);
    assert(x <= 0x0fff_ffff_ffff_ffff ==> x << 4usize == x * 16) by (bit_vector);
    assert(x <= 0x07ff_ffff_ffff_ffff ==> x << 5usize == x * 32) by (bit_vector);
    assert(x <= 0x03ff_ffff_ffff_ffff ==> x << 6usize == x * 64) by (bit_vector);
}
/// the bits of 2^l - 1
pub open spec fn lowbits(m: u64, l: int) -> bool { forall|i: int| #[trigger] m.bit(i) == (0 <= i < l) }
pub proof fn lemma_mod_nb(x: u64)
    ensures
        forall|m: u64| lowbits(m, 3) ==> (#[trigger] (x & m)) == x % 8, forall|m: u64| lowbits(m, 3) ==> (#[trigger] (m & x)) == x % 8,
        forall|m: u64| lowbits(m, 4) ==> (#[trigger] (x & m)) == x % 16, forall|m: u64| lowbits(m, 4) ==> (#[trigger] (m & x)) == x % 16,
        forall|m: u64| lowbits(m, 5) ==> (#[trigger] (x & m)) == x % 32, forall|m: u64| lowbits(m, 5) ==> (#[trigger] (m & x)) == x % 32,
        forall|m: u64| lowbits(m, 6) ==> (#[trigger] (x & m)) == x % 64, forall|m: u64| lowbits(m, 6) ==> (#[trigger] (m & x)) == x % 64,
{
//$ foreach LL,MM,NN in 3,7u64,8 4,15u64,16 5,31u64,32 6,63u64,64
    assert forall|m: u64| lowbits(m, LL) implies (#[trigger] (x & m)) == x % NN && (x & m) == (m & x) by {
        assert(x & m == m & x) by (bit_vector);
        assert forall|i: int| 0 <= i < 64 implies m.bit(i) == MM.bit(i) by { let k = i as u64; assert(k < 64 ==> (((MM >> k) & 1 == 1) <==> k < LL)) by (bit_vector); assert(m.bit(i) == (i < LL)); }
        u64::law_ext(m, MM);
        assert(x & MM == x % NN) by (bit_vector);
    }
    assert forall|m: u64| lowbits(m, LL) implies (#[trigger] (m & x)) == x % NN by { assert(x & m == x % NN); }
//$ end
}
//$ foreach TT,NN,UU in u8,8,u8 u16,16,u16 u32,32,u32 u64,64,u64 usize,64,u64
pub proof fn lemma_ops_TT()
    ensures
        forall|a: TT, b: TT, i: int| #[trigger] (a & b).bit(i) == (a.bit(i) && b.bit(i)),
        forall|a: TT, b: TT, i: int| #[trigger] (a | b).bit(i) == (a.bit(i) || b.bit(i)),
        forall|a: TT, i: int| #[trigger] (!a).bit(i) == (0 <= i < NN && !a.bit(i)),
        forall|a: TT, k: usize, i: int| k < NN ==> #[trigger] (a << k).bit(i) == (i < NN && a.bit(i - k)),
        forall|a: TT, k: usize, i: int| k < NN ==> #[trigger] (a >> k).bit(i) == (0 <= i && a.bit(i + k)),
        forall|i: int| !#[trigger] 0TT.bit(i), forall|i: int| #[trigger] 1TT.bit(i) == (i == 0),
{
    assert forall|a: TT, b: TT, i: int| #[trigger] (a & b).bit(i) == (a.bit(i) && b.bit(i)) by { let k = i as TT;
        assert(((a & b) >> k) & 1 == 1 <==> (a >> k) & 1 == 1 && (b >> k) & 1 == 1) by (bit_vector); }
    assert forall|a: TT, b: TT, i: int| #[trigger] (a | b).bit(i) == (a.bit(i) || b.bit(i)) by { let k = i as TT;
        assert(((a | b) >> k) & 1 == 1 <==> (a >> k) & 1 == 1 || (b >> k) & 1 == 1) by (bit_vector); }
    assert forall|a: TT, i: int| #[trigger] (!a).bit(i) == (0 <= i < NN && !a.bit(i)) by { let k = i as TT;
        assert(k < NN ==> ((!a >> k) & 1 == 1 <==> !((a >> k) & 1 == 1))) by (bit_vector); }
    assert forall|a: TT, k: usize, i: int| k < NN implies #[trigger] (a << k).bit(i) == (i < NN && a.bit(i - k)) by {
        if 0 <= i < NN { let j = i as TT; let q = k as TT;
            assert(k < NN && j < NN && j >= q ==> ((((a << k) >> j) & 1 == 1) <==> ((a >> ((j - q) as TT)) & 1 == 1))) by (bit_vector) requires q == k as TT;
            assert(k < NN && j < q ==> !(((a << k) >> j) & 1 == 1)) by (bit_vector) requires q == k as TT; } }
    assert forall|a: TT, k: usize, i: int| k < NN implies #[trigger] (a >> k).bit(i) == (0 <= i && a.bit(i + k)) by {
        if 0 <= i < NN { let j = i as TT; let q = k as TT;
            assert(k < NN && j < NN && j + q < NN ==> ((((a >> k) >> j) & 1 == 1) <==> ((a >> ((j + q) as TT)) & 1 == 1))) by (bit_vector) requires q == k as TT;
            assert(k < NN && j < NN && j + q >= NN ==> !(((a >> k) >> j) & 1 == 1)) by (bit_vector) requires q == k as TT; } }
    assert forall|i: int| !#[trigger] 0TT.bit(i) by { let k = i as TT; assert((0TT >> k) & 1 == 0) by (bit_vector); }
    assert forall|i: int| #[trigger] 1TT.bit(i) == (i == 0) by { let k = i as TT; assert(k < NN ==> ((1TT >> k) & 1 == 1 <==> k == 0)) by (bit_vector); }
}
pub proof fn lemma_le_TT(x: TT, m: TT, k: int)
    requires 0 <= k <= NN, forall|i: int| #[trigger] m.bit(i) == (0 <= i < k)
    ensures x <= m <==> (forall|i: int| k <= i < NN ==> !#[trigger] x.bit(i))
{
    lemma_ops_TT(); lemma_mask_TT(k);
    if k == NN { TT::law_ext(m, !0TT); assert(!0TT == TT::MAX) by (bit_vector); }
    else {
        let q = k as TT; let z = ((1TT << q) - 1) as TT;
        TT::law_ext(m, z);
        assert(q < NN ==> (x <= z <==> x >> q == 0)) by (bit_vector) requires z == ((1TT << q) - 1) as TT;
        let y = x >> q; let qu = k as usize;
        assert(qu < NN ==> x >> qu == x >> (qu as TT)) by (bit_vector);
        assert(y == x >> qu);
        if y == 0 { assert forall|i: int| k <= i < NN implies !#[trigger] x.bit(i) by { assert(!y.bit(i - k)); } }
        if forall|i: int| k <= i < NN ==> !#[trigger] x.bit(i) { assert forall|i: int| 0 <= i < NN implies y.bit(i) == 0TT.bit(i) by { assert(y.bit(i) == x.bit(i + k)); } TT::law_ext(y, 0TT); }
    }
}
pub open spec fn onebit_TT(m: TT, k: int) -> bool { forall|i: int| #[trigger] m.bit(i) == (i == k) }
pub proof fn lemma_zero_TT(x: TT, k: int)
    requires 0 <= k < NN
    ensures forall|m: TT| onebit_TT(m, k) ==> ((#[trigger] (x & m)) == 0 <==> !x.bit(k)), forall|m: TT| onebit_TT(m, k) ==> ((#[trigger] (m & x)) == 0 <==> !x.bit(k))
{
    lemma_ops_TT();
    assert forall|m: TT| onebit_TT(m, k) implies ((#[trigger] (x & m)) == 0 <==> !x.bit(k)) && (x & m == m & x) by {
        assert(x & m == m & x) by (bit_vector);
        let y = x & m;
        if x.bit(k) { assert(y.bit(k)); } else { TT::law_ext(y, 0TT); }
    }
    assert forall|m: TT| onebit_TT(m, k) implies ((#[trigger] (m & x)) == 0 <==> !x.bit(k)) by { assert((x & m) == 0 <==> !x.bit(k)); }
}
pub proof fn lemma_mask_TT(k: int)
    requires 0 <= k <= NN
    ensures k < NN ==> (1TT << (k as TT)) >= 1 && (1TT << (k as usize)) == (1TT << (k as TT)) && (1TT << (k as u32)) == (1TT << (k as TT)),
        k < NN ==> forall|i: int| #[trigger] (((1TT << (k as TT)) - 1) as TT).bit(i) == (0 <= i < k),
        forall|i: int| #[trigger] (!0TT).bit(i) == (0 <= i < NN),
        forall|x: TT| (#[trigger] (x | 0TT)) == x, forall|x: TT| (#[trigger] (x | !0TT)) == !0TT, forall|x: TT| (#[trigger] (0TT | x)) == x, forall|x: TT| (#[trigger] (!0TT | x)) == !0TT,
        0usize & 1 == 0, 1usize & 1 == 1, !0TT == TT::MAX, (1TT << 0u32) == 1, (1TT << 0usize) == 1,
{
    lemma_ops_TT();
    if k < NN {
        let q = k as TT; let qu = k as usize; let q3 = k as u32;
        assert(q < NN ==> (1TT << q) >= 1) by (bit_vector);
        assert(qu < NN ==> 1TT << qu == 1TT << (qu as TT)) by (bit_vector);
        assert(q3 < NN ==> 1TT << q3 == 1TT << (q3 as TT)) by (bit_vector);
        let m = ((1TT << q) - 1) as TT;
        assert forall|i: int| #[trigger] m.bit(i) == (0 <= i < k) by {
            if 0 <= i < NN { let j = i as TT; assert(q < NN && j < NN ==> ((m >> j) & 1 == 1 <==> j < q)) by (bit_vector) requires m == ((1TT << q) - 1) as TT; } }
    }
    assert forall|x: TT| (#[trigger] (x | 0TT)) == x by { assert(x | 0 == x) by (bit_vector); }
    assert forall|x: TT| (#[trigger] (x | !0TT)) == !0TT by { assert(x | !0TT == !0TT) by (bit_vector); }
    assert forall|x: TT| (#[trigger] (0TT | x)) == x by { assert(0 | x == x) by (bit_vector); }
    assert forall|x: TT| (#[trigger] (!0TT | x)) == !0TT by { assert(!0TT | x == !0TT) by (bit_vector); }
    assert(0usize & 1 == 0 && 1usize & 1 == 1) by (bit_vector);
    assert(!0TT == TT::MAX && (1TT << 0u32) == 1 && (1TT << 0usize) == 1) by (bit_vector);
}
pub proof fn lemma_lz_TT(x: TT)
    ensures ({ let l = vstd::std_specs::bits::UU_leading_zeros(x as UU); l <= NN && (x > 0 ==> l < NN && vstd::arithmetic::power2::pow2((NN - 1 - l) as nat) <= x < vstd::arithmetic::power2::pow2((NN - l) as nat)) })
{
    let y = x as UU;
    vstd::std_specs::bits::axiom_UU_leading_zeros(y);
    let l = vstd::std_specs::bits::UU_leading_zeros(y);
    if x > 0 {
        vstd::arithmetic::power2::lemma2_to64();
        let h = (NN - 1 - l) as UU;
        assert((y >> h) & 1 != 0 ==> y >> h > 0) by (bit_vector);
        vstd::bits::lemma_UU_shr_is_div(y, h);
        let p = vstd::arithmetic::power2::pow2(h as nat);
        vstd::arithmetic::power2::lemma_pow2_pos(h as nat);
        assert(p <= y) by (nonlinear_arith) requires y as int / p as int > 0, p > 0;
        if l > 0 {
            let g = (NN - l) as UU;
            vstd::bits::lemma_UU_shr_is_div(y, g);
            let p2 = vstd::arithmetic::power2::pow2(g as nat);
            vstd::arithmetic::power2::lemma_pow2_pos(g as nat);
            assert(y < p2) by (nonlinear_arith) requires y as int / p2 as int == 0, p2 > 0, y >= 0;
        }
    }
}
//$ end
//$ foreach TT,NN in u8,8 u16,16 u32,32 u64,64 usize,64
//@ fn storage::<TT as BlockType>::div_nbits | storage::<TT as BlockType>::checked_div_nbits
//@ entry
proof { lemma_shr_nb(index); }
//@ fn storage::<TT as BlockType>::lg_nbits
//@ entry
proof { lemma_lg_nb(); }
//@ fn storage::<TT as BlockType>::mod_nbits
//@ entry
proof { lemma_mod_nb(index); }
//@ fn storage::<TT as BlockType>::mul_nbits
//@ entry
proof { lemma_shl_nb(index as u64); }
//@ fn storage::<TT as BlockType>::low_mask
//@ entry
proof { lemma_mask_TT(k as int); }
//@ fn storage::<TT as BlockType>::nth_mask
//@ entry
proof { lemma_ops_TT(); }
//@ fn storage::<TT as BlockType>::get_bit
//@ entry
proof { lemma_ops_TT(); if bit_index < NN { lemma_zero_TT(self, bit_index as int); } }
//@ fn storage::<TT as BlockType>::with_bit | storage::<TT as BlockType>::get_bits | storage::<TT as BlockType>::with_bits
//@ entry
proof { lemma_ops_TT(); }
//@ fn storage::<TT as BlockType>::floor_lg | storage::<TT as BlockType>::ceil_lg
//@ entry
proof { lemma_one(0); lemma_lz_TT(self); if self > 0 { lemma_lz_TT((self - 1) as TT); } assert(self <= 1 ==> self.val() <= 1 && (self > 0 ==> self.val() >= 1)); }
//$ end
//$ foreach TT,NN in u8,8 u16,16 u32,32 u64,64 usize,64
//@ fn storage::<TT as BlockType>::ceil_div_nbits | storage::<TT as BlockType>::checked_ceil_div_nbits
//@ entry
proof { assert(<TT as PrimInt>::nb() == NN); assert(index as int / NN + 1 <= usize::MAX); }
//$ end
//@ mod rank::prim
pub open spec fn lowpart<N: PrimInt>(y: N, x: N, k: int) -> bool { forall|i: int| #[trigger] y.bit(i) == (x.bit(i) && i < k) }
proof fn lemma_low_ones<N: PrimInt>(y: N, x: N, k: int, n: int)
    requires 0 <= k <= n <= N::nb(), lowpart(y, x, k)
    ensures ones(bits_of(y), n) == ones(bits_of(x), k)
    decreases n
{
    if k < n { lemma_low_ones(y, x, k, n - 1); assert(!y.bit(n - 1)); }
    else { lemma_ones_same(bits_of(y), bits_of(x), n); }
}
pub proof fn lemma_low<N: PrimInt>(x: N, k: int)
    requires 0 <= k <= N::nb()
    ensures forall|y: N| lowpart(y, x, k) ==> ones(#[trigger] bits_of(y), N::nb() as int) == ones(bits_of(x), k), ones(bits_of(x), k) <= k
{
    lemma_ones_bound(bits_of(x), k);
    assert forall|y: N| lowpart(y, x, k) implies ones(#[trigger] bits_of(y), N::nb() as int) == ones(bits_of(x), k) by { lemma_low_ones(y, x, k, N::nb() as int); }
}
pub open spec fn upshift<N: PrimInt>(y: N, x: N, d: int) -> bool { forall|i: int| #[trigger] y.bit(i) == (i < N::nb() && x.bit(i - d)) }
pub open spec fn downshift<N: PrimInt>(y: N, x: N, k: int) -> bool { forall|i: int| #[trigger] y.bit(i) == (0 <= i && x.bit(i + k)) }
proof fn lemma_up_ones<N: PrimInt>(y: N, x: N, d: int, n: int)
    requires 0 <= d, 0 <= n, n <= N::nb(), upshift(y, x, d)
    ensures n <= d ==> ones(bits_of(y), n) == 0, n >= d ==> ones(bits_of(y), n) == ones(bits_of(x), n - d)
    decreases n
{
    if n > 0 { lemma_up_ones(y, x, d, n - 1); if n <= d { x.law_range(n - 1 - d); } assert(y.bit(n - 1) == x.bit(n - 1 - d)); }
}
proof fn lemma_down_ones<N: PrimInt>(y: N, x: N, k: int, n: int)
    requires 0 <= k <= N::nb(), 0 <= n <= N::nb(), downshift(y, x, k)
    ensures n <= N::nb() - k ==> ones(bits_of(y), n) == ones(bits_of(x), k + n) - ones(bits_of(x), k),
        n > N::nb() - k ==> ones(bits_of(y), n) == ones(bits_of(x), N::nb() as int) - ones(bits_of(x), k)
    decreases n
{
    if n > 0 { lemma_down_ones(y, x, k, n - 1); assert(y.bit(n - 1) == x.bit(n - 1 + k)); x.law_range(n - 1 + k); }
}
/// the population count of the positions below k, as a function of x masked, shifted up or shifted down
pub proof fn lemma_popcounts<N: PrimInt>(x: N, k: int)
    requires 0 <= k <= N::nb()
    ensures forall|y: N| upshift(y, x, N::nb() - k) ==> ones(#[trigger] bits_of(y), N::nb() as int) == ones(bits_of(x), k),
        forall|y: N| downshift(y, x, k) ==> ones(#[trigger] bits_of(y), N::nb() as int) == ones(bits_of(x), N::nb() as int) - ones(bits_of(x), k),
{
    assert forall|y: N| upshift(y, x, N::nb() - k) implies ones(#[trigger] bits_of(y), N::nb() as int) == ones(bits_of(x), k) by { lemma_up_ones(y, x, N::nb() - k, N::nb() as int); }
    assert forall|y: N| downshift(y, x, k) implies ones(#[trigger] bits_of(y), N::nb() as int) == ones(bits_of(x), N::nb() as int) - ones(bits_of(x), k) by {
        lemma_down_ones(y, x, k, N::nb() as int); }
}
//$ foreach TT,NN in u8,8 u16,16 u32,32 u64,64 usize,64
//@ fn rank::prim::<TT as BitRankSupport>::rank1
//@ entry
proof { crate::storage::lemma_ops_TT(); if position < NN { lemma_low(*self, position as int + 1); lemma_popcounts(*self, position as int + 1); } }
//@ fn rank::prim::<TT as BitRankSupport>::rank0
//@ entry
proof { crate::storage::lemma_ops_TT(); if position < NN { lemma_low(*self, position as int + 1); lemma_popcounts(*self, position as int + 1); } }
//@ subst
(?<![\w.] )position \+ 1(?:u64)?(?! \*)|(?<![\w*] )1(?:u64)? \+ position => vx_add(position, 1)
//$ end
