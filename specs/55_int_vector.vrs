//@ include
int_vec::int_vector
int_vec::traits
int_vec
//@ skip
int_vec::int_vector::<Iter<'a,Block>asPartialEq>
//@ use int_vec::traits
use crate::vxp::*;
use crate::storage::BlockType;
//@ use int_vec::int_vector
use crate::space_usage::*;
use std::mem;
use crate::vxp::*;
use crate::bit_vec::traits::*;
use crate::int_vec::traits::*;
use crate::storage::{Address, BlockType};
use crate::internal::vector_base::{self, VectorBase, resized, lemma_vbits_resize, lemma_vbits_take, lemma_vbits_push, lemma_floor_blocks, lemma_floor_all, lemma_same_blocks, lemma_step, lemma_mod_in, lastbits, lemma_lastbits};

//@ trait int_vec::traits::IntVec
    spec fn iwf(&self) -> bool;
    /// the elements, each as its bits, least significant first
    spec fn elems(&self) -> Seq<Seq<bool>>;
    /// the element width
    spec fn width(&self) -> nat;
    proof fn law_elems(&self)
        requires self.iwf()
        ensures self.elems().len() <= u64::MAX, forall|k: int| 0 <= k < self.elems().len() ==> #[trigger] self.elems()[k].len() == self.width();
//@ fn int_vec::traits::IntVec::len
requires self.iwf()
ensures r == self.elems().len()
//@ fn int_vec::traits::IntVec::is_empty
requires self.iwf()
ensures r == (self.elems().len() == 0)
//@ fn int_vec::traits::IntVec::element_bits
requires self.iwf()
ensures r == self.width()
//@ fn int_vec::traits::IntVec::get
requires self.iwf(), panics_allowed() || index < self.elems().len()
ensures index < self.elems().len(), shows(r, self.elems()[index as int], self.width()),
    forall|i: int| #[trigger] r.bit(i) == (0 <= i < self.width() && self.elems()[index as int][i])
//@ fn int_vec::traits::IntVecMut::set
requires old(self).iwf(), panics_allowed() || (index < old(self).elems().len() && fits(value, old(self).width() as int))
ensures final(self).iwf(), final(self).width() == old(self).width(), index < old(self).elems().len(), fits(value, old(self).width() as int),
   final(self).elems() == old(self).elems().update(index as int, low(value, old(self).width()))
//@ refuse
self.elems() == old(self).elems() && self.width() == old(self).width()
//@ mod int_vec::traits
/// x is the w-bit element e
pub open spec fn shows<B: PrimInt>(x: B, e: Seq<bool>, w: nat) -> bool { forall|i: int| #[trigger] x.bit(i) == (0 <= i < w && e[i]) }
/// the low w bits of a value
pub open spec fn low<B: PrimInt>(x: B, w: nat) -> Seq<bool> { Seq::new(w, |i: int| x.bit(i)) }
/// the value needs no more than w bits
pub open spec fn fits<B: PrimInt>(x: B, w: int) -> bool { forall|i: int| w <= i < B::nb() ==> !#[trigger] x.bit(i) }

//@ mod int_vec::int_vector
pub open spec fn elems_of(bits: Seq<bool>, w: nat, n: nat) -> Seq<Seq<bool>> {
    Seq::new(n, |k: int| Seq::new(w, |i: int| bits[k * w + i]))
}
impl<Block: BlockType> IntVector<Block> {
    pub open spec fn ok(&self) -> bool { self.base.wf(self.element_bits as int) }
    pub open spec fn blocks(&self) -> Seq<Block> { self.base.vec@ }
    pub open spec fn flat(&self) -> Seq<bool> { self.base.ebits(self.element_bits as int) }
    /// the number of elements that fit in the memory held
    pub open spec fn cap(&self) -> int { (vcap(self.base.vec) * Block::nb()) as int / (self.element_bits as int) }
    pub proof fn lemma_iv(&self)
        requires self.ok()
        ensures self.flat().len() == self.base.len * self.element_bits, self.base.len * self.element_bits == self.element_bits * self.base.len,
            self.base.len * self.element_bits < 0x1000_0000_0000_0000, self.base.len <= self.base.len * self.element_bits,
            self.base.vec@.len() == cdiv(self.flat().len() as int, Block::nb() as int), isnb(Block::nb() as int),
            forall|k: int| 0 <= k < self.base.len ==> 0 <= #[trigger] (k * self.element_bits) && k * self.element_bits + self.element_bits <= self.flat().len(),
            self.elems().len() == self.base.len, self.width() == self.element_bits, 1 <= self.element_bits <= Block::nb(),
            forall|k: int, i: int| 0 <= k < self.base.len && 0 <= i < self.element_bits ==> #[trigger] self.elems()[k][i] == self.flat()[k * self.element_bits + i],
            forall|p: int| 0 <= p < self.flat().len() ==> 0 <= #[trigger] (p / (self.element_bits as int)) < self.base.len && 0 <= p % (self.element_bits as int) < self.element_bits
              && p == (p / (self.element_bits as int)) * self.element_bits + p % (self.element_bits as int),
    {
        let eb = self.element_bits as int; let n = self.base.len as int;
        self.base.lemma_wf(eb); lemma_mul_succ(n, eb);
        assert(n <= n * eb) by (nonlinear_arith) requires eb >= 1, n >= 0;
        assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] (k * eb) && k * eb + eb <= n * eb by { lemma_step(k, n, eb); }
        assert forall|p: int| 0 <= p < n * eb implies 0 <= #[trigger] (p / eb) < n && 0 <= p % eb < eb && p == (p / eb) * eb + p % eb by {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, eb); lemma_mul_succ(p / eb, eb);
            assert(0 <= p / eb < n && 0 <= p % eb < eb) by (nonlinear_arith) requires 0 <= p < n * eb, eb > 0, p == eb * (p / eb) + p % eb;
        }
    }
    /// writing a value over the bits of element k updates element k
    pub proof fn lemma_update(&self, o: &Self, k: int, value: Block)
        requires self.ok(), o.ok(), self.element_bits == o.element_bits, self.base.len == o.base.len, 0 <= k < o.base.len,
            self.flat() == overwrite(o.flat(), k * o.element_bits, o.element_bits as int, |i: int| value.bit(i)),
        ensures self.elems() =~= o.elems().update(k, low(value, o.width()))
    {
        self.lemma_iv(); o.lemma_iv(); let eb = o.element_bits as int;
        assert forall|q: int| 0 <= q < o.base.len implies #[trigger] self.elems()[q] =~= o.elems().update(k, low(value, o.width()))[q] by {
            if q < k { lemma_step(q, k, eb); } else if q > k { lemma_step(k, q, eb); }
            assert forall|i: int| 0 <= i < eb implies #[trigger] self.elems()[q][i] == o.elems().update(k, low(value, o.width()))[q][i] by {
               assert(self.elems()[q][i] == self.flat()[q * eb + i]); assert(o.elems()[q][i] == o.flat()[q * eb + i]); 
               assert(0 <= q * eb && q * eb + eb <= self.flat().len()); }
        }
    }
    /// same bits, same elements
    pub proof fn lemma_prefix(&self, o: &Self)
        requires self.ok(), o.ok(), self.element_bits == o.element_bits, self.base.len <= o.base.len,
            self.flat() == o.flat().take(self.base.len * self.element_bits)
        ensures self.elems() =~= o.elems().take(self.base.len as int)
    {
        self.lemma_iv(); o.lemma_iv(); let eb = o.element_bits as int; lemma_mul_le(self.base.len as int, o.base.len as int, eb);
        assert forall|q: int| 0 <= q < self.base.len implies #[trigger] self.elems()[q] =~= o.elems().take(self.base.len as int)[q] by {
            assert(o.elems().take(self.base.len as int)[q] == o.elems()[q]);
            assert forall|i: int| 0 <= i < eb implies #[trigger] self.elems()[q][i] == o.elems()[q][i] by {
               assert(0 <= q * eb && q * eb + eb <= self.flat().len()); }
        }
    }
    /// all elements the same value from `from` on
    pub proof fn lemma_filled(&self, o: Seq<Seq<bool>>, value: Block)
        requires self.ok(), o.len() <= self.base.len || true,
            forall|k: int, i: int| 0 <= k < self.base.len && 0 <= i < self.element_bits ==> #[trigger] self.elems()[k][i] == (if k < o.len() { o[k][i] } else { value.bit(i) }),
            forall|k: int| 0 <= k < o.len() ==> #[trigger] o[k].len() == self.element_bits,
        ensures self.elems() =~= Seq::new(self.base.len as nat, |k: int| if k < o.len() { o[k] } else { low(value, self.width()) })
    {
        self.lemma_iv(); 
        let w = Seq::new(self.base.len as nat, |k: int| if k < o.len() { o[k] } else { low(value, self.width()) });
        assert forall|k: int| 0 <= k < self.base.len implies #[trigger] self.elems()[k] =~= w[k] by {
            if k < o.len() { assert(o[k].len() == self.element_bits); }
            assert forall|i: int| 0 <= i < self.element_bits implies self.elems()[k][i] == w[k][i] by {} }
    }
}
//@ impl int_vec::int_vector::<IntVector<Block>asIntVec>
    open spec fn iwf(&self) -> bool { self.ok() }
    open spec fn elems(&self) -> Seq<Seq<bool>> { elems_of(self.flat(), self.element_bits as nat, self.base.len as nat) }
    open spec fn width(&self) -> nat { self.element_bits as nat }
    proof fn law_elems(&self) {}
//@ impl int_vec::int_vector::<IntVector<Block>asBitVec>
    open spec fn wf(&self) -> bool { self.ok() }
    open spec fn bits(&self) -> Seq<bool> { self.flat() }
    proof fn law_bits(&self) { self.lemma_iv(); }
//@ impl int_vec::int_vector::<IntVector<Block>asBitVecMut>
    open spec fn frame(&self) -> (Seq<bool>, Seq<bool>, nat) { (seq![], seq![], self.element_bits as nat) }

//@ fn int_vec::int_vector::IntVector::check_element_bits
requires panics_allowed() || 1 <= element_bits <= Block::nb()
ensures 1 <= element_bits <= Block::nb()
//@ fn int_vec::int_vector::IntVector::check_value_random
requires element_bits <= Block::nb(), panics_allowed() || fits(element_value, element_bits as int)
ensures fits(element_value, element_bits as int)
//@ entry
proof { lemma_le_all(element_value, element_bits as int); Block::laws(); }
//@ fn int_vec::int_vector::IntVector::check_value
requires self.ok(), panics_allowed() || fits(element_value, self.element_bits as int)
ensures fits(element_value, self.element_bits as int)
//@ fn int_vec::int_vector::IntVector::create
requires panics_allowed() || 1 <= element_bits <= Block::nb()
ensures 1 <= element_bits <= Block::nb(), r.element_bits == element_bits, r.base == base
//@ fn int_vec::int_vector::IntVector::compute_address_random
requires panics_allowed() || element_index * element_bits + bit_offset <= u64::MAX
ensures r == element_index * element_bits + bit_offset
//@ entry
proof { assert(0 <= element_index * element_bits) by (nonlinear_arith); }
//@ fn int_vec::int_vector::IntVector::compute_address
requires panics_allowed() || element_index * self.element_bits <= u64::MAX
ensures r == element_index * self.element_bits
//@ entry
proof { assert(0 <= element_index * self.element_bits) by (nonlinear_arith); }
//@ fn int_vec::int_vector::IntVector::new
requires panics_allowed() || 1 <= element_bits <= Block::nb()
ensures 1 <= element_bits <= Block::nb(), r.ok(), r.width() == element_bits, r.elems() == Seq::<Seq<bool>>::empty()
//@ exit
proof { assert(vx_ret.elems() =~= Seq::<Seq<bool>>::empty()); }
//@ fn int_vec::int_vector::IntVector::with_capacity
requires panics_allowed() || (1 <= element_bits <= Block::nb() && capacity * element_bits <= u64::MAX)
ensures 1 <= element_bits <= Block::nb(), capacity * element_bits <= u64::MAX, r.ok(), r.width() == element_bits, r.elems() == Seq::<Seq<bool>>::empty(), r.cap() >= capacity
//@ exit
proof { assert(vx_ret.elems() =~= Seq::<Seq<bool>>::empty()); }
//@ entry
proof { Block::law_nb(); if element_bits >= 1 { lemma_cap_all(Block::nb() as int, element_bits as int, capacity as int); } }
//@ fn int_vec::int_vector::IntVector::block_with_capacity
requires panics_allowed() || 1 <= element_bits <= Block::nb()
ensures 1 <= element_bits <= Block::nb(), r.ok(), r.width() == element_bits, r.elems() == Seq::<Seq<bool>>::empty(), vcap(r.base.vec) >= block_capacity
//@ exit
proof { assert(vx_ret.elems() =~= Seq::<Seq<bool>>::empty()); }
//@ fn int_vec::int_vector::IntVector::with_fill
requires panics_allowed() || (1 <= element_bits <= Block::nb() && len * element_bits <= u64::MAX)
ensures 1 <= element_bits <= Block::nb(), len * element_bits <= u64::MAX, r.ok(), r.width() == element_bits,
   r.elems() == Seq::new(len as nat, |k: int| low(value, element_bits as nat))
//@ exit
proof { vx_ret.lemma_iv(); let eb = element_bits as int;
  assert forall|k: int, i: int| 0 <= k < len && 0 <= i < eb implies #[trigger] vx_ret.elems()[k][i] == value.bit(i) by { 
     assert(0 <= k * eb && k * eb + eb <= vx_ret.flat().len()); lemma_mod_in(k * eb + i, k, eb); assert(vx_ret.base.ebits(eb)[k * eb + i] == value.bit((k * eb + i) % eb)); }
  vx_ret.lemma_filled(Seq::<Seq<bool>>::empty(), value); assert(vx_ret.elems() =~= Seq::new(len as nat, |k: int| low(value, element_bits as nat))); }
//@ fn int_vec::int_vector::IntVector::block_with_fill
requires element_bits > 0, panics_allowed() || 1 <= element_bits <= Block::nb()
ensures 1 <= element_bits <= Block::nb(), r.ok(), r.width() == element_bits, r.base.len == (block_len * Block::nb()) as int / (element_bits as int),
   forall|p: int| 0 <= p < r.flat().len() ==> #[trigger] r.flat()[p] == value.bit(p % (Block::nb() as int))
//@ exit
proof { vx_ret.lemma_iv(); }
//@ fn int_vec::int_vector::IntVector::get_random
requires self.ok(), panics_allowed() || (element_bits <= Block::nb() && element_index * element_bits + bit_offset + element_bits <= self.flat().len())
ensures element_bits <= Block::nb(), element_index * element_bits + bit_offset + element_bits <= self.flat().len(),
   forall|i: int| #[trigger] r.bit(i) == (0 <= i < element_bits && self.flat()[element_index * element_bits + bit_offset + i])
//@ entry
proof { self.lemma_iv(); }
//@ fn int_vec::int_vector::IntVector::set_random
requires old(self).ok(), element_bits <= Block::nb(), panics_allowed() || (fits(element_value, element_bits as int) && element_index * element_bits + bit_offset + element_bits <= old(self).flat().len())
ensures final(self).ok(), final(self).element_bits == old(self).element_bits, element_index * element_bits + bit_offset + element_bits <= old(self).flat().len(), fits(element_value, element_bits as int),
   final(self).flat() == overwrite(old(self).flat(), element_index * element_bits + bit_offset, element_bits as int, |i: int| element_value.bit(i)), final(self).base.len == old(self).base.len
//@ entry
proof { self.lemma_iv(); }
//@ refuse
//@ refuse before check_value_random 0
fits(element_value, element_bits as int)
//@ refuse before compute_address_random 0
element_index * element_bits + bit_offset <= u64::MAX
//@ refuse before set_bits 0
address + element_bits <= self.base.len * self.element_bits && element_bits <= Block::nb()
//@ fn int_vec::int_vector::IntVector::push
requires old(self).ok(), panics_allowed() || fits(element_value, old(self).element_bits as int)
ensures final(self).ok(), final(self).width() == old(self).width(), fits(element_value, old(self).element_bits as int), final(self).elems() == old(self).elems().push(low(element_value, old(self).width()))
//@ exit
proof { self.lemma_iv(); old(self).lemma_iv(); let eb = self.element_bits as int; let n = old(self).base.len as int; let want = old(self).elems().push(low(element_value, old(self).width()));
  lemma_mul_succ(n, eb);
  assert forall|k: int| 0 <= k < n + 1 implies #[trigger] self.elems()[k] =~= want[k] by {
     if k < n { lemma_step(k, n, eb); assert(want[k] == old(self).elems()[k]); } else { assert(want[k] == low(element_value, old(self).width())); }
     assert forall|i: int| 0 <= i < eb implies self.elems()[k][i] == want[k][i] by { assert(self.elems()[k][i] == self.flat()[k * eb + i]); } }
  assert(self.elems() =~= want); }
//@ refuse
//@ refuse before check_value 0
fits(element_value, self.element_bits as int)
//@ fn int_vec::int_vector::IntVector::pop
requires old(self).ok()
ensures final(self).ok(), final(self).width() == old(self).width(), old(self).elems().len() == 0 ==> r is None && final(self).elems() == old(self).elems(),
   old(self).elems().len() > 0 ==> r is Some && (forall|i: int| #[trigger] r->Some_0.bit(i) == (0 <= i < old(self).width() && old(self).elems().last()[i])) && final(self).elems() == old(self).elems().drop_last()
//@ exit
proof { old(self).lemma_iv(); if old(self).base.len > 0 { self.lemma_prefix(old(self)); assert(self.elems() =~= old(self).elems().drop_last()); } }
//@ fn int_vec::int_vector::IntVector::capacity
requires self.ok()
ensures r == self.cap()
//@ fn int_vec::int_vector::IntVector::block_capacity
ensures r == vcap(self.base.vec)
//@ fn int_vec::int_vector::IntVector::resize
requires old(self).ok(), panics_allowed() || n_elements * old(self).element_bits <= u64::MAX
ensures n_elements * old(self).element_bits <= u64::MAX, final(self).ok(), final(self).width() == old(self).width(), 
   final(self).elems() == Seq::new(n_elements as nat, |k: int| if k < old(self).elems().len() { old(self).elems()[k] } else { low(fill, old(self).width()) })
//@ exit
proof { self.lemma_iv(); old(self).lemma_iv(); let eb = self.element_bits as int; let n = old(self).base.len as int;
  assert forall|k: int, i: int| 0 <= k < n_elements && 0 <= i < eb implies #[trigger] self.elems()[k][i] == (if k < n { old(self).elems()[k][i] } else { fill.bit(i) }) by {
     assert(0 <= k * eb && k * eb + eb <= self.flat().len()); lemma_mod_in(k * eb + i, k, eb); 
     if k < n { lemma_step(k, n, eb); } else { lemma_mul_le(n, k, eb); }
     assert(self.elems()[k][i] == self.flat()[k * eb + i]); }
  self.lemma_filled(old(self).elems(), fill);
  assert(self.elems() =~= Seq::new(n_elements as nat, |k: int| if k < old(self).elems().len() { old(self).elems()[k] } else { low(fill, old(self).width()) })); }
//@ fn int_vec::int_vector::IntVector::block_resize
requires old(self).ok()
ensures final(self).ok(), final(self).width() == old(self).width(), final(self).blocks().len() == n_blocks, final(self).base.len == (n_blocks * Block::nb()) as int / (old(self).element_bits as int),
   final(self).flat() == vbits(resized(old(self).blocks(), n_blocks as nat, fill)).take(final(self).flat().len() as int)
//@ exit
proof { self.lemma_iv(); }
//@ fn int_vec::int_vector::IntVector::reserve | int_vec::int_vector::IntVector::reserve_exact
requires old(self).ok(), panics_allowed() || (old(self).elems().len() + additional) * old(self).element_bits <= u64::MAX
ensures final(self).ok(), final(self).width() == old(self).width(), final(self).elems() == old(self).elems(), final(self).cap() >= old(self).elems().len() + additional
//@ fn int_vec::int_vector::IntVector::block_reserve | int_vec::int_vector::IntVector::block_reserve_exact
requires old(self).ok()
ensures final(self).ok(), final(self).width() == old(self).width(), final(self).elems() == old(self).elems(), vcap(final(self).base.vec) >= old(self).blocks().len() + additional
//@ fn int_vec::int_vector::IntVector::shrink_to_fit
requires old(self).ok()
ensures final(self).ok(), final(self).width() == old(self).width(), final(self).elems() == old(self).elems()
//@ fn int_vec::int_vector::IntVector::truncate
requires old(self).ok()
ensures final(self).ok(), final(self).width() == old(self).width(), final(self).elems() == (if n_elements < old(self).elems().len() { old(self).elems().take(n_elements as int) } else { old(self).elems() }),
  vcap(final(self).base.vec) == vcap(old(self).base.vec)
//@ exit
proof { old(self).lemma_iv(); if n_elements < old(self).base.len { self.lemma_prefix(old(self)); } }
//@ fn int_vec::int_vector::IntVector::block_truncate
requires old(self).ok()
ensures final(self).ok(), final(self).width() == old(self).width(), vcap(final(self).base.vec) == vcap(old(self).base.vec),
  n_blocks >= old(self).blocks().len() ==> final(self).elems() == old(self).elems(),
  n_blocks < old(self).blocks().len() ==> final(self).blocks().len() == n_blocks && final(self).elems() == old(self).elems().take((n_blocks * Block::nb()) as int / (old(self).element_bits as int))
//@ exit
proof { old(self).lemma_iv(); if n_blocks < old(self).base.vec@.len() { self.lemma_prefix(old(self)); } }
//@ fn int_vec::int_vector::IntVector::clear
requires old(self).ok()
ensures final(self).ok(), final(self).width() == old(self).width(), final(self).elems() == Seq::<Seq<bool>>::empty(), vcap(final(self).base.vec) == vcap(old(self).base.vec)
//@ exit
proof { assert(self.elems() =~= Seq::<Seq<bool>>::empty()); }
//@ fn int_vec::int_vector::<&'aIntVector<Block>asIntoIterator>::into_iter
requires self.ok()
ensures r.wf(), r.whole() == self.elems(), r.width() == self.width(), r.start() == 0, r.limit() == self.elems().len()
//@ fn int_vec::int_vector::IntVector::iter
requires self.ok()
ensures r.wf(), r.whole() == self.elems(), r.width() == self.width(), r.start() == 0, r.limit() == self.elems().len()
//@ entry
proof { self.lemma_iv(); }
//@ fn int_vec::int_vector::IntVector::is_block_sized
requires self.ok()
ensures r == (self.element_bits == Block::nb())
//@ fn int_vec::int_vector::IntVector::is_aligned
requires self.ok()
ensures r == (Block::nb() as int % self.element_bits as int == 0)

//@ fn int_vec::int_vector::<IntVector<Block>asIntVec>::get
//@ entry
proof { self.lemma_iv(); lemma_vbits(self.base.vec@); let eb = self.element_bits as int; lemma_mul_succ(element_index as int, eb);
  if element_index < self.base.len { lemma_step(element_index as int, self.base.len as int, eb); } else { lemma_mul_le(self.base.len as int, element_index as int, eb); }
  if eb == Block::nb() { lemma_cdiv_unique(self.base.len * eb, eb, self.base.len as int); } Block::law_nb();
  assert forall|x: Block, i: int| #[trigger] x.bit(i) implies 0 <= i < Block::nb() by { x.law_range(i); } }
//@ fn int_vec::int_vector::<IntVector<Block>asIntVecMut>::set
//@ entry
proof { self.lemma_iv(); lemma_vbits(self.base.vec@); let eb = self.element_bits as int; 
  if element_index < self.base.len { lemma_step(element_index as int, self.base.len as int, eb); } else { lemma_mul_le(self.base.len as int, element_index as int, eb); }
  if eb == Block::nb() { lemma_cdiv_unique(self.base.len * eb, eb, self.base.len as int); } Block::law_nb(); lemma_mul_succ(element_index as int, eb); }
//@ after set_block 0
proof { old(self).lemma_iv(); self.lemma_update(old(self), element_index as int, element_value); }
//@ exit
proof { self.lemma_update(old(self), element_index as int, element_value); }

//@ refuse before check_value 0
fits(element_value, self.element_bits as int)
//@ refuse before compute_address 0
element_index * self.element_bits <= u64::MAX
//@ refuse before set_bits 0
address + self.element_bits <= self.base.len * self.element_bits
//@ refuse before set_block 0
element_index < self.base.vec@.len()
//@ fn int_vec::int_vector::<IntVector<Block>asBitVec>::block_len | int_vec::int_vector::<IntVector<Block>asBitVec>::bit_len 
//@ entry
proof { self.lemma_iv(); }
//@ fn int_vec::int_vector::<IntVector<Block>asBitVec>::get_block
//@ entry
proof { self.lemma_iv(); lemma_vbits(self.base.vec@); self.base.lemma_wf(self.element_bits as int); }
//@ fn int_vec::int_vector::<IntVector<Block>asBitVecMut>::set_block
//@ entry
proof { self.lemma_iv(); }

//@ refuse before set_block 0
position < self.base.vec@.len()
//@ mod int_vec::int_vector
pub proof fn lemma_le_all<B: BlockType>(x: B, k: int)
    requires 0 <= k <= B::nb()
    ensures B::obeys_partial_cmp_spec(), forall|m: B| (forall|i: int| #[trigger] m.bit(i) == (0 <= i < k)) ==>
       ((#[trigger] x.partial_cmp_spec(&m) == Some(core::cmp::Ordering::Less) || x.partial_cmp_spec(&m) == Some(core::cmp::Ordering::Equal)) <==> fits(x, k))
{
    B::law_ord();
    assert forall|m: B| (forall|i: int| #[trigger] m.bit(i) == (0 <= i < k)) implies
       ((#[trigger] x.partial_cmp_spec(&m) == Some(core::cmp::Ordering::Less) || x.partial_cmp_spec(&m) == Some(core::cmp::Ordering::Equal)) <==> fits(x, k)) by { x.law_le_mask(m, k); }
}
pub proof fn lemma_cap_all(nb: int, eb: int, n: int)
    requires isnb(nb), 1 <= eb, 0 <= n
    ensures forall|c: int| #![trigger c * nb] c >= cdiv(n * eb, nb) ==> (c * nb) / eb >= n
{
    assert forall|c: int| #![trigger c * nb] c >= cdiv(n * eb, nb) implies (c * nb) / eb >= n by { crate::internal::vector_base::lemma_cap(nb, c, eb, n); }
}
/// The iterator yields whole()[start()..limit()].
impl<'a, Block: BlockType> Iter<'a, Block> {
    pub open spec fn wf(self) -> bool { self.0.wf() }
    pub open spec fn width(self) -> nat { self.0.element_bits as nat }
    pub open spec fn whole(self) -> Seq<Seq<bool>> { elems_of(self.0.data.ebits(self.0.element_bits as int), self.0.element_bits as nat, self.0.data.len as nat) }
    pub open spec fn start(self) -> int { self.0.start as int }
    pub open spec fn limit(self) -> int { self.0.limit as int }
    pub open spec fn at(self, o: Self, a: int, z: int) -> bool { self.whole() == o.whole() && self.width() == o.width() && self.start() == a && self.limit() == z }
    pub open spec fn is_elem(self, r: Block, k: int) -> bool { forall|i: int| #[trigger] r.bit(i) == (0 <= i < self.width() && self.whole()[k][i]) }
}
//@ fn int_vec::int_vector::<Iter<'a,Block>asIterator>::next
requires old(self).wf()
ensures final(self).wf(), 
   old(self).start() >= old(self).limit() ==> r is None && *final(self) == *old(self),
   old(self).start() < old(self).limit() ==> r is Some && old(self).is_elem(r->Some_0, old(self).start()) && final(self).at(*old(self), old(self).start() + 1, old(self).limit())
//@ fn int_vec::int_vector::<Iter<'a,Block>asDoubleEndedIterator>::next_back
requires old(self).wf()
ensures final(self).wf(), 
   old(self).start() >= old(self).limit() ==> r is None && *final(self) == *old(self),
   old(self).start() < old(self).limit() ==> r is Some && old(self).is_elem(r->Some_0, old(self).limit() - 1) && final(self).at(*old(self), old(self).start(), old(self).limit() - 1)
//@ fn int_vec::int_vector::<Iter<'a,Block>asIterator>::nth
requires old(self).wf()
ensures final(self).wf(), 
   old(self).start() + n >= old(self).limit() ==> r is None && final(self).at(*old(self), old(self).limit(), old(self).limit()),
   old(self).start() + n < old(self).limit() ==> r is Some && old(self).is_elem(r->Some_0, old(self).start() + n) && final(self).at(*old(self), old(self).start() + n + 1, old(self).limit())
//@ fn int_vec::int_vector::<Iter<'a,Block>asIterator>::last
requires self.wf()
ensures self.start() >= self.limit() ==> r is None, self.start() < self.limit() ==> r is Some && self.is_elem(r->Some_0, self.limit() - 1)
//@ fn int_vec::int_vector::<Iter<'a,Block>asIterator>::size_hint
requires self.wf()
ensures r.0 == self.limit() - self.start(), r.1 == Some(r.0)
//@ fn int_vec::int_vector::<Iter<'a,Block>asIterator>::count
requires self.wf()
ensures r == self.limit() - self.start()
//@ fn int_vec::int_vector::<Iter<'a,Block>asExactSizeIterator>::len
requires self.wf()
ensures r == self.limit() - self.start()

// ---------------------------------------------------------------- comparing, hashing, cloning
//@ mod int_vec::int_vector
impl<Block: BlockType> IntVector<Block> {
    pub open spec fn hdata(&self) -> Seq<Fed> { seq![Fed::Int(self.element_bits as u64)] + self.base.hdata() }
    pub proof fn lemma_elems_unique(a: &Self, b: &Self)
        requires a.ok(), b.ok()
        ensures a.width() == b.width() && a.elems() == b.elems() <==> a.element_bits == b.element_bits && a.base.len == b.base.len && a.base.vec@ == b.base.vec@,
            a.hdata() == b.hdata() <==> a.element_bits == b.element_bits && a.base.len == b.base.len && a.base.vec@ == b.base.vec@,
    {
        a.lemma_iv(); b.lemma_iv(); 
        if a.width() == b.width() && a.elems() == b.elems() {
            let eb = a.element_bits as int;
            assert forall|p: int| 0 <= p < a.flat().len() implies a.flat()[p] == b.flat()[p] by {
                let (k, i) = (p / eb, p % eb);
                assert(p == k * eb + i); assert(a.elems()[k][i] == a.flat()[k * a.element_bits + i]); assert(b.elems()[k][i] == b.flat()[k * b.element_bits + i]); }
            assert(a.flat() =~= b.flat());
            VectorBase::lemma_unique(a.base, b.base, eb);
        }
        VectorBase::lemma_hdata(a.base, b.base);
        if a.hdata() == b.hdata() {
            assert(a.hdata()[0] == b.hdata()[0]);
            assert(a.base.hdata() =~= a.hdata().skip(1)); assert(b.base.hdata() =~= b.hdata().skip(1));
        }
    }
}
//@ fn int_vec::int_vector::<IntVector<Block>asPartialEq>::eq
requires self.ok(), other.ok()
ensures r == (self.width() == other.width() && self.elems() == other.elems())
//@ entry
proof { Self::lemma_elems_unique(self, other); }
//@ fn int_vec::int_vector::<IntVector<Block>asHash>::hash
requires self.ok()
ensures final(state).fed() == old(state).fed() + self.hdata(),
    forall|o: Self| #[trigger] o.ok() ==> (o.hdata() == self.hdata() <==> o.width() == self.width() && o.elems() == self.elems()),
//@ entry
proof { assert forall|o: Self| #[trigger] o.ok() implies (o.hdata() == self.hdata() <==> o.width() == self.width() && o.elems() == self.elems()) by { Self::lemma_elems_unique(&o, self); } }
//@ exit
proof { assert(state.fed() =~= old(state).fed() + self.hdata()); }
//@ fn int_vec::int_vector::<IntVector<Block>asClone>::clone
requires self.ok()
ensures r.ok(), r.width() == self.width(), r.elems() == self.elems()
