//@ include
bit_vec::bit_slice
//@ use bit_vec::bit_slice
use crate::space_usage::*;
use std::mem;
use crate::vxp::*;
use crate::vxp::vx_min as min;
use core::ops::{Range, RangeTo, RangeFrom, RangeFull};
use crate::bit_vec::traits::*;
use crate::storage::BlockType;
//@ skip
//@ trait bit_vec::bit_slice::IntoRange
    /// the bounds of the range, given the bounds that fill in for missing ones
    spec fn lo(self, start: T) -> T;
    spec fn hi(self, limit: T) -> T;
//@ impl bit_vec::bit_slice::<Range<T>asIntoRange>
    open spec fn lo(self, start: T) -> T { self.start }
    open spec fn hi(self, limit: T) -> T { self.end }
//@ impl bit_vec::bit_slice::<RangeTo<T>asIntoRange>
    open spec fn lo(self, start: T) -> T { start }
    open spec fn hi(self, limit: T) -> T { self.end }
//@ impl bit_vec::bit_slice::<RangeFrom<T>asIntoRange>
    open spec fn lo(self, start: T) -> T { self.start }
    open spec fn hi(self, limit: T) -> T { limit }
//@ impl bit_vec::bit_slice::<RangeFullasIntoRange>
    open spec fn lo(self, start: T) -> T { start }
    open spec fn hi(self, limit: T) -> T { limit }
//@ fn bit_vec::bit_slice::IntoRange::into_range
ensures r.start == self.lo(start), r.end == self.hi(limit)

//@ impl bit_vec::bit_slice::<BitSlice<'a,Base>asBitVec>
    open spec fn wf(&self) -> bool { self.data.wf() && self.start + self.len <= self.data.bits().len() }
    open spec fn bits(&self) -> Seq<bool> { self.data.bits().subrange(self.start as int, self.start + self.len) }
    proof fn law_bits(&self) { self.data.law_bits(); }
//@ impl bit_vec::bit_slice::<BitSliceMut<'a,Base>asBitVec>
    open spec fn wf(&self) -> bool { self.data.wf() && self.start + self.len <= self.data.bits().len() }
    open spec fn bits(&self) -> Seq<bool> { self.data.bits().subrange(self.start as int, self.start + self.len) }
    proof fn law_bits(&self) { self.data.law_bits(); }
//@ impl bit_vec::bit_slice::<BitSliceMut<'a,Base>asBitVecMut>
    /// the base outside the window, and what surrounds the base
    open spec fn frame(&self) -> (Seq<bool>, Seq<bool>, nat) {
        (self.data.frame().0 + self.data.bits().take(self.start as int), self.data.bits().skip(self.start + self.len) + self.data.frame().1, self.data.frame().2)
    }

//@ fn bit_vec::bit_slice::BitSlice::new
requires base.wf(), range.lo(0) <= range.hi(base.bits().len() as u64), panics_allowed() || range.hi(base.bits().len() as u64) <= base.bits().len()
ensures range.hi(base.bits().len() as u64) <= base.bits().len(), r.wf(),
    r.bits() == base.bits().subrange(range.lo(0) as int, range.hi(base.bits().len() as u64) as int)
//@ entry
proof { base.law_bits(); }
//@ fn bit_vec::bit_slice::BitSlice::slice
requires self.wf(), range.lo(0) <= range.hi(self.bits().len() as u64), panics_allowed() || range.hi(self.bits().len() as u64) <= self.bits().len()
ensures range.hi(self.bits().len() as u64) <= self.bits().len(), r.wf(),
    r.bits() == self.bits().subrange(range.lo(0) as int, range.hi(self.bits().len() as u64) as int)
//@ entry
proof { self.law_bits(); self.data.law_bits();
  assert(range.hi(self.bits().len() as u64) <= self.bits().len() ==> self.data.bits().subrange(self.start + range.lo(0), self.start + range.hi(self.bits().len() as u64)) =~= self.bits().subrange(range.lo(0) as int, range.hi(self.bits().len() as u64) as int)); }
//@ fn bit_vec::bit_slice::BitSliceMut::new
requires base.wf(), range.lo(0) <= range.hi(base.bits().len() as u64), panics_allowed() || range.hi(base.bits().len() as u64) <= base.bits().len()
ensures range.hi(old(base).bits().len() as u64) <= old(base).bits().len(), r.wf(), r.data.bits() == old(base).bits(), r.data.frame() == old(base).frame(), final(base).bits() == final(r.data).bits(), final(base).frame() == final(r.data).frame(), final(base).wf() == final(r.data).wf(),
    r.start == range.lo(0), r.len == range.hi(old(base).bits().len() as u64) - range.lo(0),
    r.bits() == old(base).bits().subrange(range.lo(0) as int, range.hi(old(base).bits().len() as u64) as int)
//@ entry
proof { base.law_bits(); }
//@ fn bit_vec::bit_slice::BitSliceMut::slice_mut
requires old(self).wf(), range.lo(0) <= range.hi(old(self).bits().len() as u64), panics_allowed() || range.hi(old(self).bits().len() as u64) <= old(self).bits().len()
ensures range.hi(old(self).bits().len() as u64) <= old(self).bits().len(), r.wf(), r.data.bits() == old(self).data.bits(), r.data.frame() == old(self).data.frame(),
    final(self).data.bits() == final(r.data).bits(), final(self).data.frame() == final(r.data).frame(), final(self).data.wf() == final(r.data).wf(),
    final(final(self).data).bits() == final(old(self).data).bits(), final(final(self).data).frame() == final(old(self).data).frame(), final(self).start == old(self).start, final(self).len == old(self).len,
    r.start == old(self).start + range.lo(0), r.len == range.hi(old(self).bits().len() as u64) - range.lo(0),
    r.bits() == old(self).bits().subrange(range.lo(0) as int, range.hi(old(self).bits().len() as u64) as int)
//@ entry
proof { self.law_bits(); self.data.law_bits();
  assert(range.hi(self.bits().len() as u64) <= self.bits().len() ==> self.data.bits().subrange(self.start + range.lo(0), self.start + range.hi(self.bits().len() as u64)) =~= self.bits().subrange(range.lo(0) as int, range.hi(self.bits().len() as u64) as int)); }
//@ fn bit_vec::bit_slice::BitSliceMut::slice
requires self.wf(), range.lo(0) <= range.hi(self.bits().len() as u64), panics_allowed() || range.hi(self.bits().len() as u64) <= self.bits().len()
ensures range.hi(self.bits().len() as u64) <= self.bits().len(), r.wf(),
    r.bits() == self.bits().subrange(range.lo(0) as int, range.hi(self.bits().len() as u64) as int)
//@ entry
proof { self.law_bits(); self.data.law_bits();
  assert(range.hi(self.bits().len() as u64) <= self.bits().len() ==> self.data.bits().subrange(self.start + range.lo(0), self.start + range.hi(self.bits().len() as u64)) =~= self.bits().subrange(range.lo(0) as int, range.hi(self.bits().len() as u64) as int)); }
//@ fn bit_vec::bit_slice::<BitSlice<'a,Base>asBitVec>::get_bit | bit_vec::bit_slice::<BitSlice<'a,Base>asBitVec>::get_bits | bit_vec::bit_slice::<BitSliceMut<'a,Base>asBitVec>::get_bit | bit_vec::bit_slice::<BitSliceMut<'a,Base>asBitVec>::get_bits
//@ entry
proof { self.data.law_bits(); }
//@ fn bit_vec::bit_slice::<BitSliceMut<'a,Base>asBitVecMut>::set_bit
ensures final(self).start == old(self).start, final(self).len == old(self).len, final(self).data.frame() == old(self).data.frame(),
    final(final(self).data).bits() == final(old(self).data).bits(), final(final(self).data).frame() == final(old(self).data).frame(),
    final(self).data.bits() == old(self).data.bits().update(old(self).start + position, value)
//@ entry
proof { self.data.law_bits(); }
let ghost s0 = self.data.bits();
//@ exit
proof { let k = self.start as int; let e = self.start + self.len; let s = self.data.bits();
  assert(s.subrange(k, e) =~= s0.subrange(k, e).update(position as int, value)); assert(s.take(k) =~= s0.take(k)); assert(s.skip(e) =~= s0.skip(e)); }
//@ refuse before set_bit 0
self.start + position < self.data.bits().len()
//@ fn bit_vec::bit_slice::<BitSliceMut<'a,Base>asBitVecMut>::set_bits
ensures final(self).start == old(self).start, final(self).len == old(self).len, final(self).data.frame() == old(self).data.frame(),
    final(final(self).data).bits() == final(old(self).data).bits(), final(final(self).data).frame() == final(old(self).data).frame(),
    final(self).data.bits() == overwrite(old(self).data.bits(), old(self).start + position, count as int, |i: int| value.bit(i))
//@ entry
proof { self.data.law_bits(); }
let ghost s0 = self.data.bits();
//@ exit
proof { let k = self.start as int; let e = self.start + self.len; let s = self.data.bits(); 
  assert(s.subrange(k, e) =~= overwrite(s0.subrange(k, e), position as int, count as int, |i: int| value.bit(i))); assert(s.take(k) =~= s0.take(k)); assert(s.skip(e) =~= s0.skip(e)); }
//@ refuse before set_bits 0
self.start + position + count <= self.data.bits().len() && count <= Self::Block::nb()
//@ fn bit_vec::bit_slice::<BitSlice<'a,Base>asBitVec>::get_block | bit_vec::bit_slice::<BitSliceMut<'a,Base>asBitVec>::get_block
//@ entry
proof { self.data.law_bits(); Base::Block::law_nb(); lemma_blk(Base::Block::nb() as int, position as int, self.len as int); }
//@ fn bit_vec::bit_slice::<BitSliceMut<'a,Base>asBitVecMut>::set_block
ensures final(self).start == old(self).start, final(self).len == old(self).len, final(self).data.frame() == old(self).data.frame(),
    final(final(self).data).bits() == final(old(self).data).bits(), final(final(self).data).frame() == final(old(self).data).frame(),
    final(self).data.bits() == overwrite(old(self).data.bits(), old(self).start + position * Self::Block::nb(), min2(Self::Block::nb() as int, old(self).len - position * Self::Block::nb()), |i: int| value.bit(i))
//@ entry
proof { self.data.law_bits(); Base::Block::law_nb(); lemma_blk(Base::Block::nb() as int, position as int, self.len as int); }
//@ witness bit_vec::bit_slice
//$ key vx_clients
/// Writing through a slice of a slice changes exactly the bits of the window, in the base.
pub fn vx_client_nested<B: BitVecMut>(base: &mut B, a: u64, b: u64, c: u64, d: u64, i: u64, v: bool)
    requires old(base).wf(), a <= b <= old(base).bits().len(), c <= d <= b - a, i < d - c
    ensures final(base).bits() == old(base).bits().update(a + c + i, v), final(base).frame() == old(base).frame()
{
    let mut s = BitSliceMut::new(base, a..b);
    let mut t = s.slice_mut(c..d);
    t.set_bit(i, v);
}
pub fn vx_client_word<B: BitVecMut>(base: &mut B, a: u64, b: u64, i: u64, n: usize, v: B::Block)
    requires old(base).wf(), a <= b <= old(base).bits().len(), i + n <= b - a, n <= B::Block::nb()
    ensures final(base).bits() == overwrite(old(base).bits(), a + i, n as int, |k: int| v.bit(k)), final(base).frame() == old(base).frame()
{
    let mut s = BitSliceMut::new(base, a..b);
    s.set_bits(i, n, v);
}
/// An immutable slice of a mutable slice reads the same window.
pub fn vx_client_read<B: BitVecMut>(base: &mut B, a: u64, b: u64, c: u64, d: u64, i: u64) -> (r: bool)
    requires old(base).wf(), a <= b <= old(base).bits().len(), c <= d <= b - a, i < d - c
    ensures r == old(base).bits()[a + c + i], final(base).bits() == old(base).bits()
{
    let s = BitSliceMut::new(base, a..b);
    let t = s.slice(c..d);
    t.get_bit(i)
}
