//@ include
bit_vec::bit_vector
//@ skip
bit_vec::bit_vector::<Iter<'a,Block>asPartialEq>
//@ use bit_vec::bit_vector
use crate::space_usage::*;
use std::mem;
use crate::vxp::*;
use crate::bit_vec::traits::*;
use crate::storage::{Address, BlockType};
use crate::internal::vector_base::{self, VectorBase, resized, lemma_vbits_resize, lemma_vbits_take, lemma_vbits_push, lemma_floor_blocks, lemma_floor_all, lemma_same_blocks, lastbits, lemma_lastbits};

//@ mod bit_vec::bit_vector
impl<Block: BlockType> BitVector<Block> {
    pub open spec fn blocks(&self) -> Seq<Block> { self.0.vec@ }
    pub open spec fn cap(&self) -> int { (vcap(self.0.vec) * Block::nb()) as int }
    /// nothing but the capacity changed
    pub open spec fn same(&self, o: Self) -> bool { self.0.len == o.0.len && self.0.vec@ == o.0.vec@ }
    pub proof fn lemma_bv(&self)
        requires self.wf()
        ensures self.bits().len() == self.0.len, self.0.len < 0x1000_0000_0000_0000, self.0.vec@.len() == cdiv(self.0.len as int, Block::nb() as int), isnb(Block::nb() as int),
            self.0.vec@.len() * Block::nb() < 0x1000_0000_0000_0000, self.0.len <= self.0.vec@.len() * Block::nb() < self.0.len + Block::nb(),
            vbits(self.0.vec@).len() == self.0.vec@.len() * Block::nb(),
    { self.0.lemma_wf(1); }
}
//@ impl bit_vec::bit_vector::<BitVector<Block>asBitVec>
    open spec fn wf(&self) -> bool { self.0.wf(1) }
    open spec fn bits(&self) -> Seq<bool> { self.0.ebits(1) }
    proof fn law_bits(&self) { self.0.lemma_wf(1); }
//@ impl bit_vec::bit_vector::<BitVector<Block>asBitVecMut>
    open spec fn frame(&self) -> (Seq<bool>, Seq<bool>, nat) { (seq![], seq![], 0) }
//@ impl bit_vec::bit_vector::<BitVector<Block>asBitVecPush>
    open spec fn room(&self, n: int) -> bool { self.bits().len() + n <= u64::MAX }
    proof fn law_room(&self, n: int) {}
    proof fn law_one_more(&self) { self.lemma_bv(); }

//@ fn bit_vec::bit_vector::BitVector::new
ensures r.wf(), r.bits() == Seq::<bool>::empty()
//@ entry
proof { Block::law_nb(); assert forall|b: VectorBase<Block>| #[trigger] b.wf0(1) && b.len == 0 implies b.ebits(1) =~= Seq::<bool>::empty() by { b.lemma_wf(1); } }
//@ fn bit_vec::bit_vector::BitVector::with_capacity
requires panics_allowed() || true
ensures r.wf(), r.bits() == Seq::<bool>::empty(), r.cap() >= capacity
//@ entry
proof { Block::law_nb(); assert forall|b: VectorBase<Block>| #[trigger] b.wf0(1) && b.len == 0 implies b.ebits(1) =~= Seq::<bool>::empty() by { b.lemma_wf(1); } if capacity <= u64::MAX { lemma_cdiv(capacity * 1, Block::nb() as int); } }
//@ fn bit_vec::bit_vector::BitVector::block_with_capacity
ensures r.wf(), r.bits() == Seq::<bool>::empty(), vcap(r.0.vec) >= capacity
//@ entry
proof { Block::law_nb(); assert forall|b: VectorBase<Block>| #[trigger] b.wf0(1) && b.len == 0 implies b.ebits(1) =~= Seq::<bool>::empty() by { b.lemma_wf(1); } }
//@ fn bit_vec::bit_vector::BitVector::with_fill
ensures r.wf(), r.bits() == Seq::new(len as nat, |i: int| value)
//@ entry
proof { Block::law_nb(); Block::laws(); lemma_cdiv(len as int, Block::nb() as int); }
//@ exit
proof { vx_ret.lemma_bv(); assert(vx_ret.bits() =~= Seq::new(len as nat, |i: int| value)); }
//@ fn bit_vec::bit_vector::BitVector::block_with_fill
ensures r.wf(), r.bits() == Seq::new(block_len as nat * Block::nb(), |i: int| value.bit(i % (Block::nb() as int)))
//@ entry
proof { Block::law_nb(); lemma_floor_blocks(Block::nb() as int, block_len as int, 1); assert forall|b: VectorBase<Block>| #[trigger] b.wf0(1) && b.len == block_len * Block::nb() && (forall|j: int| 0 <= j < b.len * 1 ==> #[trigger] b.ebits(1)[j] == value.bit(j % (Block::nb() as int))) implies b.ebits(1) =~= Seq::new(block_len as nat * Block::nb(), |i: int| value.bit(i % (Block::nb() as int))) by { b.lemma_wf(1); } }
//@ fn bit_vec::bit_vector::BitVector::capacity
ensures r == self.cap()
//@ entry
proof { Block::law_nb(); lemma_floor_blocks(Block::nb() as int, vcap(self.0.vec) as int, 1); }
//@ fn bit_vec::bit_vector::BitVector::block_capacity
ensures r == vcap(self.0.vec)
//@ fn bit_vec::bit_vector::BitVector::resize
requires old(self).wf()
ensures final(self).wf(), final(self).bits() == Seq::new(new_len as nat, |i: int| if i < old(self).bits().len() { old(self).bits()[i] } else { value })
//@ entry
let ghost nb = Block::nb() as int; let ghost b0 = self.bits(); let ghost n0 = b0.len() as int; let ghost k0 = self.blocks().len() as int;
proof { Block::law_nb(); Block::laws(); self.lemma_bv(); lemma_cdiv(new_len as int, nb); lemma_cdiv(n0, nb); lemma_lastbits(nb, n0); lemma_mul_succ(k0, nb); lemma_cdiv_mono(min2(n0, new_len as int), max2(n0, new_len as int), nb); }
//@ loop 0
invariant self.wf(), vx_i0 <= vx_e0, vx_e0 == nb - lastbits(n0, nb), self.bits() =~= b0 + Seq::new(vx_i0 as nat, |i: int| true), 
decreases vx_e0 - vx_i0
//@ before block_resize 1
let ghost b1 = self.bits();
proof { self.lemma_bv(); 
  if n0 == 0 { assert(k0 == 0); } 
  assert(self.bits().len() == k0 * nb); lemma_same_blocks(nb, self.blocks().len() as int, k0); }
//@ before truncate 0
proof { self.lemma_bv(); 
   assert(self.bits().take(new_len as int) =~= Seq::new(new_len as nat, |i: int| if i < b0.len() { b0[i] } else { value })); }
//@ exit
proof { assert(self.bits() =~= Seq::new(new_len as nat, |i: int| if i < b0.len() { b0[i] } else { value })); }
//@ fn bit_vec::bit_vector::BitVector::block_resize
requires old(self).wf()
ensures final(self).wf(), final(self).bits() == vbits(resized(old(self).blocks(), new_len as nat, value)), final(self).blocks().len() == new_len,
   final(self).bits() == Seq::new(new_len as nat * Block::nb(), |i: int| if i < old(self).bits().len() { old(self).bits()[i] } else { i >= old(self).blocks().len() * Block::nb() && value.bit(i % (Block::nb() as int)) })
//@ entry
let ghost nb = Block::nb() as int;
proof { Block::law_nb(); self.lemma_bv(); lemma_vbits_resize(self.0.vec@, new_len as nat, value); lemma_floor_blocks(nb, new_len as int, 1); }
//@ exit
proof { self.lemma_bv();
  let a = Seq::new(new_len as nat * Block::nb(), |i: int| if i < old(self).bits().len() { old(self).bits()[i] } else { i >= old(self).blocks().len() * Block::nb() && value.bit(i % (Block::nb() as int)) });
  let w = vbits(resized(old(self).blocks(), new_len as nat, value));
  assert forall|j: int| 0 <= j < new_len * nb implies #[trigger] w[j] == a[j] by { 
    if j < old(self).blocks().len() * nb { assert(w[j] == vbits(old(self).blocks())[j]); } }
  assert(self.bits() =~= w); assert(w =~= a); }
//@ fn bit_vec::bit_vector::BitVector::reserve
requires old(self).wf(), panics_allowed() || old(self).bits().len() + additional <= u64::MAX
ensures final(self).wf(), final(self).bits() == old(self).bits(), final(self).cap() >= old(self).bits().len() + additional
//@ entry
proof { lemma_floor_all(Block::nb() as int); Block::law_nb(); }
//@ fn bit_vec::bit_vector::BitVector::reserve_exact
requires old(self).wf(), panics_allowed() || old(self).bits().len() + additional <= u64::MAX
ensures final(self).wf(), final(self).bits() == old(self).bits(), final(self).cap() >= old(self).bits().len() + additional
//@ entry
proof { lemma_floor_all(Block::nb() as int); Block::law_nb(); }
//@ fn bit_vec::bit_vector::BitVector::block_reserve
requires old(self).wf()
ensures final(self).wf(), final(self).bits() == old(self).bits(), vcap(final(self).0.vec) >= old(self).blocks().len() + additional
//@ fn bit_vec::bit_vector::BitVector::block_reserve_exact
requires old(self).wf()
ensures final(self).wf(), final(self).bits() == old(self).bits(), vcap(final(self).0.vec) >= old(self).blocks().len() + additional
//@ fn bit_vec::bit_vector::BitVector::shrink_to_fit
requires old(self).wf()
ensures final(self).wf(), final(self).bits() == old(self).bits()
//@ fn bit_vec::bit_vector::BitVector::truncate
requires old(self).wf()
ensures final(self).wf(), final(self).bits() == (if len < old(self).bits().len() { old(self).bits().take(len as int) } else { old(self).bits() }), vcap(final(self).0.vec) == vcap(old(self).0.vec)
//@ entry
proof { self.lemma_bv(); }
//@ fn bit_vec::bit_vector::BitVector::block_truncate
requires old(self).wf()
ensures final(self).wf(), vcap(final(self).0.vec) == vcap(old(self).0.vec),
   final(self).bits() == (if block_len < old(self).blocks().len() { old(self).bits().take(block_len * Block::nb()) } else { old(self).bits() })
//@ entry
proof { Block::law_nb(); if block_len < self.0.vec@.len() { lemma_floor_blocks(Block::nb() as int, block_len as int, 1); } }
//@ fn bit_vec::bit_vector::BitVector::clear
requires old(self).wf()
ensures final(self).wf(), final(self).bits() == Seq::<bool>::empty(), vcap(final(self).0.vec) == vcap(old(self).0.vec)
//@ exit
proof { self.lemma_bv(); assert(self.bits() =~= Seq::<bool>::empty()); }
//@ fn bit_vec::bit_vector::<&'aBitVector<Block>asIntoIterator>::into_iter
requires self.wf()
ensures r.wf(), r.whole() == self.bits(), r.start() == 0, r.limit() == self.bits().len()
//@ fn bit_vec::bit_vector::BitVector::iter
requires self.wf()
ensures r.wf(), r.whole() == self.bits(), r.start() == 0, r.limit() == self.bits().len()
//@ entry
proof { self.lemma_bv(); }

//@ mod bit_vec::bit_vector
/// The iterator yields whole()[start()..limit()].
impl<'a, Block: BlockType> Iter<'a, Block> {
    pub open spec fn wf(self) -> bool { self.0.wf() && self.0.element_bits == 1 }
    pub open spec fn whole(self) -> Seq<bool> { self.0.data.ebits(1) }
    pub open spec fn start(self) -> int { self.0.start as int }
    pub open spec fn limit(self) -> int { self.0.limit as int }
    pub open spec fn at(self, o: Self, a: int, z: int) -> bool { self.whole() == o.whole() && self.start() == a && self.limit() == z }
}
//@ fn bit_vec::bit_vector::<Iter<'a,Block>asIterator>::next
requires old(self).wf()
ensures final(self).wf(), 
   old(self).start() >= old(self).limit() ==> r is None && *final(self) == *old(self),
   old(self).start() < old(self).limit() ==> r == Some(old(self).whole()[old(self).start()]) && final(self).at(*old(self), old(self).start() + 1, old(self).limit())
//@ fn bit_vec::bit_vector::<Iter<'a,Block>asDoubleEndedIterator>::next_back
requires old(self).wf()
ensures final(self).wf(), 
   old(self).start() >= old(self).limit() ==> r is None && *final(self) == *old(self),
   old(self).start() < old(self).limit() ==> r == Some(old(self).whole()[old(self).limit() - 1]) && final(self).at(*old(self), old(self).start(), old(self).limit() - 1)
//@ fn bit_vec::bit_vector::<Iter<'a,Block>asIterator>::nth
requires old(self).wf()
ensures final(self).wf(), 
   old(self).start() + n >= old(self).limit() ==> r is None && final(self).at(*old(self), old(self).limit(), old(self).limit()),
   old(self).start() + n < old(self).limit() ==> r == Some(old(self).whole()[old(self).start() + n]) && final(self).at(*old(self), old(self).start() + n + 1, old(self).limit())
//@ fn bit_vec::bit_vector::<Iter<'a,Block>asIterator>::last
requires self.wf()
ensures self.start() >= self.limit() ==> r is None, self.start() < self.limit() ==> r == Some(self.whole()[self.limit() - 1])
//@ fn bit_vec::bit_vector::<Iter<'a,Block>asIterator>::size_hint
requires self.wf()
ensures r.0 == self.limit() - self.start(), r.1 == Some(r.0)
//@ fn bit_vec::bit_vector::<Iter<'a,Block>asIterator>::count
requires self.wf()
ensures r == self.limit() - self.start()
//@ fn bit_vec::bit_vector::<Iter<'a,Block>asExactSizeIterator>::len
requires self.wf()
ensures r == self.limit() - self.start()
//@ fn bit_vec::bit_vector::<BitVector<Block>asDefault>::default
ensures r.wf(), r.bits() == Seq::<bool>::empty()
//@ fn bit_vec::bit_vector::<BitVector<Block>asBitVec>::bit_len
//@ entry
proof { self.lemma_bv(); }
//@ fn bit_vec::bit_vector::<BitVector<Block>asBitVec>::get_bit
//@ entry
proof { self.lemma_bv(); }
//@ fn bit_vec::bit_vector::<BitVector<Block>asBitVec>::get_block
//@ entry
proof { self.lemma_bv(); lemma_vbits(self.0.vec@); }
//@ fn bit_vec::bit_vector::<BitVector<Block>asBitVecMut>::set_bit
//@ entry
proof { self.lemma_bv(); }
//@ exit
proof { self.lemma_bv();  }
//@ refuse before set_bit 0
index < self.0.len
//@ fn bit_vec::bit_vector::<BitVector<Block>asBitVecMut>::set_block
//@ entry
proof { self.lemma_bv(); lemma_vbits(self.0.vec@); }
//@ exit
proof { self.lemma_bv(); assert(self.bits() =~= overwrite(old(self).bits(), index * Block::nb(), min2(Block::nb() as int, old(self).bits().len() - index * Block::nb()), |i: int| value.bit(i))); }
//@ refuse before set_block 0
index < self.0.vec@.len()
//@ fn bit_vec::bit_vector::<BitVector<Block>asBitVecPush>::pop_bit
//@ entry
proof { self.lemma_bv(); }
//@ fn bit_vec::bit_vector::<BitVector<Block>asBitVecPush>::push_bit
//@ entry
proof { self.lemma_bv(); }
//@ fn bit_vec::bit_vector::<BitVector<Block>asBitVecPush>::push_block
//@ entry
proof { self.lemma_bv(); lemma_vbits(self.0.vec@); lemma_cdiv(self.0.len as int, Block::nb() as int); lemma_floor_blocks(Block::nb() as int, (self.0.vec@.len() + 1) as int, 1); lemma_mul_succ(self.0.vec@.len() as int, Block::nb() as int); }
//@ exit
proof { self.lemma_bv(); let o = old(self); let w = vbits(o.0.vec@); let a = aligned(o.bits(), Block::nb() as int, false); 
  assert(a =~= w) by { assert forall|j: int| 0 <= j < w.len() implies #[trigger] w[j] == a[j] by { if j < o.0.len { assert(o.bits()[j] == w[j]); } } }
  assert(self.bits() =~= a + bits_of(value)); }
//@ fn bit_vec::bit_vector::<Iter<'a,Block>asIterator>::next
//@ entry
proof { Block::laws(); lemma_bool_elem::<Block>(); self.0.data.lemma_wf(1); }
//@ fn bit_vec::bit_vector::<Iter<'a,Block>asDoubleEndedIterator>::next_back
//@ entry
proof { Block::laws(); lemma_bool_elem::<Block>(); self.0.data.lemma_wf(1); }
//@ fn bit_vec::bit_vector::<Iter<'a,Block>asIterator>::nth
//@ entry
proof { Block::laws(); lemma_bool_elem::<Block>(); self.0.data.lemma_wf(1); }
//@ fn bit_vec::bit_vector::<Iter<'a,Block>asIterator>::last
//@ entry
proof { Block::laws(); lemma_bool_elem::<Block>(); self.0.data.lemma_wf(1); }
//@ mod bit_vec::bit_vector
/// a one-bit element is nonzero iff its bit is set
pub proof fn lemma_bool_elem<B: PrimInt>()
    ensures forall|b: B, z: B| (forall|i: int| !#[trigger] z.bit(i)) && (forall|i: int| i != 0 ==> !#[trigger] b.bit(i)) ==> ((#[trigger] b.eq_spec(&z)) <==> !b.bit(0))
{
    B::laws();
    assert forall|b: B, z: B| (forall|i: int| !#[trigger] z.bit(i)) && (forall|i: int| i != 0 ==> !#[trigger] b.bit(i)) implies ((#[trigger] b.eq_spec(&z)) <==> !b.bit(0)) by {
        if !b.bit(0) { assert forall|i: int| 0 <= i < B::nb() implies b.bit(i) == z.bit(i) by { if i != 0 { assert(!b.bit(i)); } }; B::law_ext(b, z); } else { assert(!z.bit(0)); }
    }
}

// ---------------------------------------------------------------- comparing, hashing, cloning
//@ fn bit_vec::bit_vector::<BitVector<Block>asPartialEq>::eq
requires self.wf(), other.wf()
ensures r == (self.bits() == other.bits())
//@ entry
proof { self.lemma_bv(); other.lemma_bv(); if self.bits() == other.bits() { VectorBase::lemma_unique(self.0, other.0, 1); } }
//@ fn bit_vec::bit_vector::<BitVector<Block>asHash>::hash
requires self.wf()
ensures final(state).fed() == old(state).fed() + self.0.hdata(),
    forall|o: Self| #[trigger] o.wf() ==> (o.0.hdata() == self.0.hdata() <==> o.bits() == self.bits()),
//@ entry
proof { assert forall|o: Self| #[trigger] o.wf() implies (o.0.hdata() == self.0.hdata() <==> o.bits() == self.bits()) by {
    self.lemma_bv(); o.lemma_bv(); VectorBase::lemma_hdata(o.0, self.0); if self.bits() == o.bits() { VectorBase::lemma_unique(self.0, o.0, 1); } } }
//@ fn bit_vec::bit_vector::<BitVector<Block>asClone>::clone
requires self.wf()
ensures r.wf(), r.bits() == self.bits()
