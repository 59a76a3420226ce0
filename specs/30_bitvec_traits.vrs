//@ use bit_vec::traits
use crate::vxp::*;
use crate::num_traits::{One, Zero, ToPrimitive};
use crate::storage::{Address, BlockType};

//@ trait bit_vec::traits::BitVec
    /// representation invariant
    spec fn wf(&self) -> bool;
    /// the abstract value: the sequence of bits
    spec fn bits(&self) -> Seq<bool>;
    proof fn law_bits(&self)
        requires self.wf()
        ensures self.bits().len() <= u64::MAX;
//@ fn bit_vec::traits::BitVec::bit_len
requires self.wf()
ensures r == self.bits().len()
//@ fn bit_vec::traits::BitVec::block_len
requires self.wf()
ensures r == cdiv(self.bits().len() as int, Self::Block::nb() as int)
//@ entry
proof { self.law_bits(); <Self::Block as PrimInt>::law_nb(); lemma_blk(Self::Block::nb() as int, 0, self.bits().len() as int); }
//@ fn bit_vec::traits::BitVec::get_bit
requires self.wf(), panics_allowed() || position < self.bits().len()
ensures position < self.bits().len(), r == self.bits()[position as int]
//@ before new 0
proof { self.law_bits(); <Self::Block as PrimInt>::law_nb(); lemma_addr(Self::Block::nb() as int, position as int, self.bits().len() as int); }
//@ fn bit_vec::traits::BitVec::get_block
requires self.wf(), panics_allowed() || position < cdiv(self.bits().len() as int, Self::Block::nb() as int)
ensures position < cdiv(self.bits().len() as int, Self::Block::nb() as int),
    forall|i: int| 0 <= i < Self::Block::nb() && position * Self::Block::nb() + i < self.bits().len()
        ==> #[trigger] r.bit(i) == self.bits()[position * Self::Block::nb() + i]
//@ before nbits 0
proof { self.law_bits(); <Self::Block as PrimInt>::law_nb(); <Self::Block as PrimInt>::laws();
    lemma_blk(Self::Block::nb() as int, position as int, self.bits().len() as int); 
    if Self::Block::nb() == 8 {} else if Self::Block::nb() == 16 {} else if Self::Block::nb() == 32 {} else {} }
//@ loop 0
invariant self.wf(), vx_e0 == Self::Block::nb(), vx_i0 <= vx_e0, self.bits().len() <= u64::MAX, isnb(Self::Block::nb() as int),
    bit_position == position * Self::Block::nb(), bit_position + Self::Block::nb() - 1 <= u64::MAX, bit_position < self.bits().len(),
    forall|i: int| #[trigger] mask.bit(i) == (i == vx_i0 && i < Self::Block::nb()),
    forall|i: int| #[trigger] result.bit(i) == (0 <= i < vx_i0 && bit_position + i < self.bits().len() && self.bits()[bit_position + i]),
decreases vx_e0 - vx_i0
//@ before bit_len 0
proof { <Self::Block as PrimInt>::laws(); }
//@ fn bit_vec::traits::BitVec::get_bits
requires self.wf(), panics_allowed() || (start + count <= self.bits().len() && count <= Self::Block::nb())
ensures start + count <= self.bits().len(), count <= Self::Block::nb(),
    forall|i: int| #[trigger] r.bit(i) == (0 <= i < count && self.bits()[start + i])
//@ before new 0
proof { self.law_bits(); <Self::Block as PrimInt>::law_nb(); <Self::Block as PrimInt>::laws(); 
  lemma_addr(Self::Block::nb() as int, start as int, self.bits().len() as int); }

//@ trait bit_vec::traits::BitVecMut
    /// what lies around the vector and must not change (for a mutable slice: the base's bits
    /// before and after it)
    spec fn frame(&self) -> (Seq<bool>, Seq<bool>, nat);
//@ fn bit_vec::traits::BitVecMut::set_bit
requires old(self).wf(), panics_allowed() || position < old(self).bits().len()
ensures position < old(self).bits().len(), final(self).wf(), final(self).frame() == old(self).frame(),
    final(self).bits() == old(self).bits().update(position as int, value)
//@ refuse
self.bits() == old(self).bits() && self.frame() == old(self).frame()
//@ before new 0
proof { self.law_bits(); <Self::Block as PrimInt>::law_nb(); lemma_addr(Self::Block::nb() as int, position as int, self.bits().len() as int); }
//@ exit
proof { let nb = Self::Block::nb() as int; let len = old(self).bits().len() as int; let b = position as int / nb; let m = min2(nb, len - b * nb);
  assert(self.bits() =~= old(self).bits().update(position as int, value)) by {
    assert forall|j: int| 0 <= j < len implies #[trigger] self.bits()[j] == old(self).bits().update(position as int, value)[j] by {
      if b * nb <= j < b * nb + m { assert(self.bits()[j] == new_block.bit(j - b * nb)); 
        assert(old_block.bit(j - b * nb) == old(self).bits()[b * nb + (j - b * nb)]); }
    }
  } }
//@ fn bit_vec::traits::BitVecMut::set_block
requires old(self).wf(), panics_allowed() || position < cdiv(old(self).bits().len() as int, Self::Block::nb() as int)
ensures position < cdiv(old(self).bits().len() as int, Self::Block::nb() as int), final(self).wf(), final(self).frame() == old(self).frame(),
    final(self).bits() == overwrite(old(self).bits(), position * Self::Block::nb(), min2(Self::Block::nb() as int, old(self).bits().len() - position * Self::Block::nb()), |i: int| value.bit(i))
//@ refuse
self.bits() == old(self).bits() && self.frame() == old(self).frame()
//@ before block_len 1
let ghost value0 = value;
proof { self.law_bits(); <Self::Block as PrimInt>::law_nb(); <Self::Block as PrimInt>::laws();
    lemma_blk(Self::Block::nb() as int, position as int, self.bits().len() as int); 
    if Self::Block::nb() == 8 {} else if Self::Block::nb() == 16 {} else if Self::Block::nb() == 32 {} else {} }
//@ loop 0
invariant self.wf(), vx_i0 <= vx_e0, old(self).bits().len() <= u64::MAX, isnb(Self::Block::nb() as int),
    vx_e0 == min2(Self::Block::nb() as int, old(self).bits().len() - position * Self::Block::nb()),
    start == position * Self::Block::nb(), start + vx_e0 <= old(self).bits().len(), self.frame() == old(self).frame(),
    forall|i: int| i + vx_i0 < Self::Block::nb() ==> #[trigger] value.bit(i) == (0 <= i && value0.bit(i + vx_i0)),
    self.bits() =~= overwrite(old(self).bits(), start as int, vx_i0 as int, |i: int| value0.bit(i)),
decreases vx_e0 - vx_i0
//@ before one 0
proof { <Self::Block as PrimInt>::laws(); lemma_test_bit0(value); }
//@ fn bit_vec::traits::BitVecMut::set_bits
requires old(self).wf(), panics_allowed() || (start + count <= old(self).bits().len() && count <= Self::Block::nb())
ensures start + count <= old(self).bits().len(), count <= Self::Block::nb(), final(self).wf(), final(self).frame() == old(self).frame(),
    final(self).bits() == overwrite(old(self).bits(), start as int, count as int, |i: int| value.bit(i))
//@ refuse
self.bits() == old(self).bits() && self.frame() == old(self).frame()
//@ before new 0
proof { self.law_bits(); <Self::Block as PrimInt>::law_nb(); <Self::Block as PrimInt>::laws(); 
  lemma_addr(Self::Block::nb() as int, start as int, self.bits().len() as int); }
//@ after set_block 0
proof { let nb = Self::Block::nb() as int; let len = old(self).bits().len() as int; let b = start as int / nb; 
  let want = overwrite(old(self).bits(), start as int, count as int, |i: int| value.bit(i));
  assert(self.bits() =~= want) by {
    assert forall|j: int| 0 <= j < len implies #[trigger] self.bits()[j] == want[j] by {
      if b * nb <= j < b * nb + nb { assert(self.bits()[j] == new_block.bit(j - b * nb)); 
        assert(old_block.bit(j - b * nb) == old(self).bits()[b * nb + (j - b * nb)]); }
    }
  } }
//@ after set_block 1
let ghost mid = self.bits();
//@ after set_block 2
proof { let nb = Self::Block::nb() as int; let len = old(self).bits().len() as int; let b = start as int / nb; 
  let want = overwrite(old(self).bits(), start as int, count as int, |i: int| value.bit(i));
  assert(self.bits() =~= want) by {
    assert forall|j: int| 0 <= j < len implies #[trigger] self.bits()[j] == want[j] by {
      if b * nb <= j < b * nb + nb { assert(self.bits()[j] == mid[j]); assert(mid[j] == new_block1.bit(j - b * nb)); 
        assert(old_block1.bit(j - b * nb) == old(self).bits()[b * nb + (j - b * nb)]); }
      else if (b + 1) * nb <= j < (b + 1) * nb + nb { assert(self.bits()[j] == new_block2.bit(j - (b + 1) * nb));
        assert(old_block2.bit(j - (b + 1) * nb) == old(self).bits()[(b + 1) * nb + (j - (b + 1) * nb)]); }
    }
  } }

//@ trait bit_vec::traits::BitVecPush
    /// room for one more bit (physical memory)
    spec fn room(&self, n: int) -> bool;
    proof fn law_room(&self, n: int)
        requires self.wf(), self.room(n), 0 <= n
        ensures self.bits().len() + n <= u64::MAX, forall|k: int| 0 <= k <= n ==> #[trigger] self.room(k);
    /// a vector that exists leaves room for one more bit in the address space
    proof fn law_one_more(&self)
        requires self.wf()
        ensures self.room(1);
//@ fn bit_vec::traits::BitVecPush::push_bit
requires old(self).wf(), old(self).room(1)
ensures final(self).wf(), final(self).bits() == old(self).bits().push(value), forall|n: int| n >= 0 && #[trigger] old(self).room(n + 1) ==> final(self).room(n)
//@ fn bit_vec::traits::BitVecPush::pop_bit
requires old(self).wf()
ensures final(self).wf(),
   old(self).bits().len() == 0 ==> r is None && final(self).bits() == old(self).bits(),
   old(self).bits().len() > 0 ==> r == Some(old(self).bits().last()) && final(self).bits() == old(self).bits().drop_last()

//@ fn bit_vec::traits::BitVecPush::align_block
requires old(self).wf(), old(self).room(Self::Block::nb() as int)
ensures final(self).wf(), final(self).bits() == aligned(old(self).bits(), Self::Block::nb() as int, value),
    forall|n: int| n >= 0 && #[trigger] old(self).room(n + (final(self).bits().len() - old(self).bits().len())) ==> final(self).room(n)
//@ entry
let ghost mut c: int = 0;
proof { <Self::Block as PrimInt>::law_nb(); lemma_aligned(self.bits().len() as int, Self::Block::nb() as int); self.law_bits(); }
//@ loop 0
invariant self.wf(), isnb(Self::Block::nb() as int), old(self).room(Self::Block::nb() as int), old(self).wf(), 0 <= c,
   self.bits().len() == old(self).bits().len() + c,
   self.bits().len() <= cdiv(old(self).bits().len() as int, Self::Block::nb() as int) * Self::Block::nb() < old(self).bits().len() + Self::Block::nb(),
   forall|n: int| n >= 0 && #[trigger] old(self).room(n + c) ==> self.room(n),
   (cdiv(old(self).bits().len() as int, Self::Block::nb() as int) * Self::Block::nb()) % (Self::Block::nb() as int) == 0,
   forall|x: int| old(self).bits().len() <= x < cdiv(old(self).bits().len() as int, Self::Block::nb() as int) * Self::Block::nb() ==> #[trigger] (x % (Self::Block::nb() as int)) != 0,
   forall|j: int| 0 <= j < self.bits().len() ==> #[trigger] self.bits()[j] == (if j < old(self).bits().len() { old(self).bits()[j] } else { value }),
decreases Self::Block::nb() - c
//@ before push_bit 0
proof { old(self).law_room(Self::Block::nb() as int); assert(old(self).room(1 + c)); }
let ghost pre = self.bits();
//@ after push_bit 0
proof { 
  assert forall|n: int| n >= 0 && #[trigger] old(self).room(n + (c + 1)) implies self.room(n) by { assert(old(self).room((n + 1) + c)); }
  c = c + 1; }
//@ exit
proof { assert(self.bits() =~= aligned(old(self).bits(), Self::Block::nb() as int, value)); }
//@ fn bit_vec::traits::BitVecPush::push_block
requires old(self).wf(), old(self).room(2 * Self::Block::nb() as int)
ensures final(self).wf(), final(self).bits() == aligned(old(self).bits(), Self::Block::nb() as int, false) + bits_of(value)
//@ entry
let ghost value0 = value;
proof { <Self::Block as PrimInt>::law_nb(); lemma_aligned(self.bits().len() as int, Self::Block::nb() as int); self.law_room(2 * Self::Block::nb() as int); <Self::Block as PrimInt>::laws(); }
//@ after align_block 0
let ghost mid = self.bits();
let ghost nb = Self::Block::nb() as int;
proof { let d = mid.len() - old(self).bits().len(); assert(0 <= d <= nb); 
   assert forall|k: int| 0 <= k <= nb implies #[trigger] self.room(k) by { assert(old(self).room(k + d)); } }
//@ loop 0
invariant self.wf(), isnb(Self::Block::nb() as int), vx_e0 == Self::Block::nb(), nb == vx_e0, vx_i0 <= vx_e0,
   forall|k: int| 0 <= k <= nb - vx_i0 ==> #[trigger] self.room(k),
   forall|i: int| i + vx_i0 < Self::Block::nb() ==> #[trigger] value.bit(i) == (0 <= i && value0.bit(i + vx_i0)),
   self.bits() =~= mid + Seq::new(vx_i0 as nat, |i: int| value0.bit(i)),
decreases vx_e0 - vx_i0
//@ before push_bit 0
proof { assert(self.room(1)); <Self::Block as PrimInt>::laws(); lemma_test_bit0(value); }
let ghost pre = *self;
//@ after push_bit 0
proof { assert forall|k: int| 0 <= k <= nb - vx_i0 implies #[trigger] self.room(k) by { assert(pre.room(k + 1)); } }
//@ exit
proof { assert(self.bits() =~= mid + bits_of(value0)); }

//@ mod bit_vec::traits
/// s padded with v up to a whole number of blocks
pub open spec fn aligned(s: Seq<bool>, nb: int, v: bool) -> Seq<bool> {
    s + Seq::new((cdiv(s.len() as int, nb) * nb - s.len()) as nat, |i: int| v)
}
//$ foreach NN in 8 16 32 64
proof fn lemma_aligned_NN(len: int)
    requires 0 <= len
    ensures len <= cdiv(len, NN) * NN < len + NN, (cdiv(len, NN) * NN) % NN == 0,
        forall|x: int| len <= x < cdiv(len, NN) * NN ==> #[trigger] (x % NN) != 0,
        len % NN == 0 ==> cdiv(len, NN) * NN == len,
{
    let c = cdiv(len, NN);
    assert(NN * (c - 1) < len <= NN * c);
    assert forall|x: int| len <= x < cdiv(len, NN) * NN implies #[trigger] (x % NN) != 0 by {
        let k = x / NN;
        assert(x == NN * k + x % NN);
        if x % NN == 0 { assert(c - 1 < k && k < c); }
    }
    if len % NN == 0 { assert(len == NN * (len / NN)); }
}
//$ end
pub proof fn lemma_aligned(len: int, nb: int)
    requires isnb(nb), 0 <= len
    ensures len <= cdiv(len, nb) * nb < len + nb, (cdiv(len, nb) * nb) % nb == 0,
        forall|x: int| len <= x < cdiv(len, nb) * nb ==> #[trigger] (x % nb) != 0,
        len % nb == 0 ==> cdiv(len, nb) * nb == len,
{
    if nb == 8 { lemma_aligned_8(len); } else if nb == 16 { lemma_aligned_16(len); } else if nb == 32 { lemma_aligned_32(len); } else { lemma_aligned_64(len); }
}
/// value & 1 != 0
pub proof fn lemma_test_bit0<N: PrimInt>(x: N)
    ensures forall|m: N, z: N| (forall|i: int| #[trigger] m.bit(i) == (i == 0)) && (forall|i: int| !#[trigger] z.bit(i)) ==> ((#[trigger] x.bitand_spec(m).eq_spec(&z)) <==> !x.bit(0))
{
    assert forall|m: N, z: N| (forall|i: int| #[trigger] m.bit(i) == (i == 0)) && (forall|i: int| !#[trigger] z.bit(i)) implies ((#[trigger] x.bitand_spec(m).eq_spec(&z)) <==> !x.bit(0)) by {
        N::law_nb();
        lemma_test_bit(x, m, 0);
    }
}

//@ impl bit_vec::traits::<[Block]asBitVec>
    open spec fn wf(&self) -> bool { self@.len() * Block::nb() <= u64::MAX }
    open spec fn bits(&self) -> Seq<bool> { vbits(self@) }
    proof fn law_bits(&self) {}
//@ impl bit_vec::traits::<&'a[Block]asBitVec>
    open spec fn wf(&self) -> bool { self@.len() * Block::nb() <= u64::MAX }
    open spec fn bits(&self) -> Seq<bool> { vbits(self@) }
    proof fn law_bits(&self) {}
//@ impl bit_vec::traits::<&'amut[Block]asBitVec>
    open spec fn wf(&self) -> bool { self@.len() * Block::nb() <= u64::MAX }
    open spec fn bits(&self) -> Seq<bool> { vbits(self@) }
    proof fn law_bits(&self) {}
//@ impl bit_vec::traits::<Vec<Block>asBitVec>
    open spec fn wf(&self) -> bool { self@.len() * Block::nb() <= u64::MAX }
    open spec fn bits(&self) -> Seq<bool> { vbits(self@) }
    proof fn law_bits(&self) {}
//@ impl bit_vec::traits::<Vec<bool>asBitVec>
    open spec fn wf(&self) -> bool { self@.len() <= usize::MAX }
    open spec fn bits(&self) -> Seq<bool> { self@ }
    proof fn law_bits(&self) {}
//@ impl bit_vec::traits::<[Block]asBitVecMut>
    open spec fn frame(&self) -> (Seq<bool>, Seq<bool>, nat) { (seq![], seq![], 0) }
//@ impl bit_vec::traits::<&'amut[Block]asBitVecMut>
    open spec fn frame(&self) -> (Seq<bool>, Seq<bool>, nat) { (seq![], seq![], 0) }
//@ impl bit_vec::traits::<Vec<Block>asBitVecMut>
    open spec fn frame(&self) -> (Seq<bool>, Seq<bool>, nat) { (seq![], seq![], 0) }
//@ impl bit_vec::traits::<Vec<bool>asBitVecMut>
    open spec fn frame(&self) -> (Seq<bool>, Seq<bool>, nat) { (seq![], seq![], 0) }
//@ impl bit_vec::traits::<Vec<bool>asBitVecPush>
    open spec fn room(&self, n: int) -> bool { self@.len() + n <= usize::MAX }
    proof fn law_room(&self, n: int) {}
    proof fn law_one_more(&self) { axiom_veclen(self); }

//@ fn bit_vec::traits::<[Block]asBitVec>::block_len | bit_vec::traits::<&'a[Block]asBitVec>::block_len | bit_vec::traits::<&'amut[Block]asBitVec>::block_len | bit_vec::traits::<Vec<Block>asBitVec>::block_len
//@ entry
proof { lemma_vbits(self@); }
//@ fn bit_vec::traits::<[Block]asBitVec>::get_block | bit_vec::traits::<&'a[Block]asBitVec>::get_block | bit_vec::traits::<&'amut[Block]asBitVec>::get_block | bit_vec::traits::<Vec<Block>asBitVec>::get_block
//@ entry
proof { lemma_vbits(self@); }
//@ fn bit_vec::traits::<[Block]asBitVecMut>::set_block | bit_vec::traits::<&'amut[Block]asBitVecMut>::set_block | bit_vec::traits::<Vec<Block>asBitVecMut>::set_block
//@ entry
proof { lemma_vbits(self@); if position < self@.len() { lemma_vbits_update(self@, position as int, value); } }
//@ witness bit_vec::traits
//$ key WBit<B>
/// Any user type that supplies only bit access: the trait's default bodies, copied from /repo,
/// are verified for it with an arbitrary block type.
pub struct WBit<B> { pub v: Vec<bool>, pub p: B }
impl<B: BlockType> BitVec for WBit<B> {
    type Block = B;
    open spec fn wf(&self) -> bool { self.v@.len() <= usize::MAX }
    open spec fn bits(&self) -> Seq<bool> { self.v@ }
    proof fn law_bits(&self) {}
    #[verifier::external_body] fn bit_len(&self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn get_bit(&self, position: u64) -> (r: bool) { unimplemented!() }
//$ defaults BitVec except get_bit
}
impl<B: BlockType> BitVecMut for WBit<B> {
    open spec fn frame(&self) -> (Seq<bool>, Seq<bool>, nat) { (seq![], seq![], 0) }
    #[verifier::external_body] fn set_bit(&mut self, position: u64, value: bool) { unimplemented!() }
    #[verifier::external_body] fn set_bit__refuse(&mut self, position: u64, value: bool) { unimplemented!() }
//$ defaults BitVecMut except set_bit
}
impl<B: BlockType> BitVecPush for WBit<B> {
    open spec fn room(&self, n: int) -> bool { self.v@.len() + n <= usize::MAX }
    proof fn law_room(&self, n: int) {}
    proof fn law_one_more(&self) { axiom_veclen(&self.v); }
    #[verifier::external_body] fn push_bit(&mut self, value: bool) { unimplemented!() }
    #[verifier::external_body] fn pop_bit(&mut self) -> (r: Option<bool>) { unimplemented!() }
//$ defaults BitVecPush
}
//@ witness bit_vec::traits
//$ key WBlk<B>
/// Any user type that supplies only block access.
pub struct WBlk<B> { pub v: Ghost<Seq<bool>>, pub p: B }
impl<B: BlockType> BitVec for WBlk<B> {
    type Block = B;
    open spec fn wf(&self) -> bool { self.v@.len() <= u64::MAX }
    open spec fn bits(&self) -> Seq<bool> { self.v@ }
    proof fn law_bits(&self) {}
    #[verifier::external_body] fn bit_len(&self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn get_block(&self, position: usize) -> (r: B) { unimplemented!() }
//$ defaults BitVec except get_block
}
impl<B: BlockType> BitVecMut for WBlk<B> {
    open spec fn frame(&self) -> (Seq<bool>, Seq<bool>, nat) { (seq![], seq![], 0) }
    #[verifier::external_body] fn set_block(&mut self, position: usize, value: B) { unimplemented!() }
    #[verifier::external_body] fn set_block__refuse(&mut self, position: usize, value: B) { unimplemented!() }
//$ defaults BitVecMut except set_block
}
//@ include
bit_vec::prim
//@ use bit_vec::prim
use crate::vxp::*;
use crate::bit_vec::traits::*;
use crate::storage::BlockType;
//$ foreach TT,NN in u8,8 u16,16 u32,32 u64,64 usize,64
//@ impl bit_vec::prim::<TT as BitVec>
    open spec fn wf(&self) -> bool { true }
    open spec fn bits(&self) -> Seq<bool> { bits_of(*self) }
    proof fn law_bits(&self) {}
//@ impl bit_vec::prim::<TT as BitVecMut>
    open spec fn frame(&self) -> (Seq<bool>, Seq<bool>, nat) { (Seq::empty(), Seq::empty(), 0) }
//$ end
//$ foreach TT,NN in u8,8 u16,16 u32,32 u64,64 usize,64
//@ fn bit_vec::prim::<TT as BitVec>::block_len
//@ entry
proof { assert(<TT as PrimInt>::nb() == NN); assert(cdiv(NN, NN) == 1); }
//$ end
