//@ include
space_usage
//@ use space_usage
use crate::vxp::*;
use vstd::layout::*;
use std::mem;
//@ mod space_usage
/// the heap bytes of the elements of a sequence
pub open spec fn heaps<A: SpaceUsage>(s: Seq<A>, n: int) -> nat decreases n
{ if n <= 0 { 0 } else { heaps(s, n - 1) + s[n - 1].heap() } }
pub proof fn lemma_heaps_mono<A: SpaceUsage>(s: Seq<A>, i: int, n: int)
  requires i <= n
  ensures heaps(s, i) <= heaps(s, n)
  decreases n - i
{ if i < n { lemma_heaps_mono(s, i, n - 1); } }
pub proof fn lemma_heaps_zero<A: SpaceUsage>(s: Seq<A>, n: int)
  requires A::stack_only()
  ensures heaps(s, n) == 0
  decreases n
{ if n > 0 { s[n - 1].law_stack_only(); lemma_heaps_zero(s, n - 1); } }
//@ trait space_usage::SpaceUsage
    /// values of the type own no heap memory
    spec fn stack_only() -> bool;
    /// the heap bytes the value owns
    spec fn heap(&self) -> nat;
    proof fn law_stack_only(&self) requires Self::stack_only() ensures self.heap() == 0;
//@ fn space_usage::SpaceUsage::is_stack_only
ensures r == Self::stack_only()
//@ fn space_usage::SpaceUsage::stack_bytes
ensures r == size_of::<Self>()
//@ fn space_usage::SpaceUsage::heap_bytes
requires self.heap() <= usize::MAX
ensures r == self.heap()
//@ fn space_usage::SpaceUsage::total_bytes
requires self.heap() + size_of::<Self>() <= usize::MAX
ensures r == self.heap() + size_of::<Self>()
//@ impl space_usage::<()asSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<u8asSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<u16asSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<u32asSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<u64asSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<usizeasSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<i8asSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<i16asSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<i32asSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<i64asSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<isizeasSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<f32asSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<f64asSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<&'aTasSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<&'a[T]asSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<(A,)asSpaceUsage>
    open spec fn stack_only() -> bool { A::stack_only() }
    open spec fn heap(&self) -> nat { self.0.heap() }
    proof fn law_stack_only(&self) { self.0.law_stack_only(); }
//@ impl space_usage::<(A,B)asSpaceUsage>
    open spec fn stack_only() -> bool { A::stack_only() && B::stack_only() }
    open spec fn heap(&self) -> nat { self.0.heap() + self.1.heap() }
    proof fn law_stack_only(&self) { self.0.law_stack_only(); self.1.law_stack_only(); }
//@ impl space_usage::<(A,B,C)asSpaceUsage>
    open spec fn stack_only() -> bool { A::stack_only() && B::stack_only() && C::stack_only() }
    open spec fn heap(&self) -> nat { self.0.heap() + self.1.heap() + self.2.heap() }
    proof fn law_stack_only(&self) { self.0.law_stack_only(); self.1.law_stack_only(); self.2.law_stack_only(); }
//@ impl space_usage::<(A,B,C,D)asSpaceUsage>
    open spec fn stack_only() -> bool { A::stack_only() && B::stack_only() && C::stack_only() && D::stack_only() }
    open spec fn heap(&self) -> nat { self.0.heap() + self.1.heap() + self.2.heap() + self.3.heap() }
    proof fn law_stack_only(&self) { self.0.law_stack_only(); self.1.law_stack_only(); self.2.law_stack_only(); self.3.law_stack_only(); }
//@ impl space_usage::<(A,B,C,D,E)asSpaceUsage>
    open spec fn stack_only() -> bool { A::stack_only() && B::stack_only() && C::stack_only() && D::stack_only() && E::stack_only() }
    open spec fn heap(&self) -> nat { self.0.heap() + self.1.heap() + self.2.heap() + self.3.heap() + self.4.heap() }
    proof fn law_stack_only(&self) { self.0.law_stack_only(); self.1.law_stack_only(); self.2.law_stack_only(); self.3.law_stack_only(); self.4.law_stack_only(); }
//@ impl space_usage::<(A,B,C,D,E,F)asSpaceUsage>
    open spec fn stack_only() -> bool { A::stack_only() && B::stack_only() && C::stack_only() && D::stack_only() && E::stack_only() && F::stack_only() }
    open spec fn heap(&self) -> nat { self.0.heap() + self.1.heap() + self.2.heap() + self.3.heap() + self.4.heap() + self.5.heap() }
    proof fn law_stack_only(&self) { self.0.law_stack_only(); self.1.law_stack_only(); self.2.law_stack_only(); self.3.law_stack_only(); self.4.law_stack_only(); self.5.law_stack_only(); }
//@ impl space_usage::<(A,B,C,D,E,F,G)asSpaceUsage>
    open spec fn stack_only() -> bool { A::stack_only() && B::stack_only() && C::stack_only() && D::stack_only() && E::stack_only() && F::stack_only() && G::stack_only() }
    open spec fn heap(&self) -> nat { self.0.heap() + self.1.heap() + self.2.heap() + self.3.heap() + self.4.heap() + self.5.heap() + self.6.heap() }
    proof fn law_stack_only(&self) { self.0.law_stack_only(); self.1.law_stack_only(); self.2.law_stack_only(); self.3.law_stack_only(); self.4.law_stack_only(); self.5.law_stack_only(); self.6.law_stack_only(); }
//@ impl space_usage::<(A,B,C,D,E,F,G,H)asSpaceUsage>
    open spec fn stack_only() -> bool { A::stack_only() && B::stack_only() && C::stack_only() && D::stack_only() && E::stack_only() && F::stack_only() && G::stack_only() && H::stack_only() }
    open spec fn heap(&self) -> nat { self.0.heap() + self.1.heap() + self.2.heap() + self.3.heap() + self.4.heap() + self.5.heap() + self.6.heap() + self.7.heap() }
    proof fn law_stack_only(&self) { self.0.law_stack_only(); self.1.law_stack_only(); self.2.law_stack_only(); self.3.law_stack_only(); self.4.law_stack_only(); self.5.law_stack_only(); self.6.law_stack_only(); self.7.law_stack_only(); }
//@ impl space_usage::<(A,B,C,D,E,F,G,H,I)asSpaceUsage>
    open spec fn stack_only() -> bool { A::stack_only() && B::stack_only() && C::stack_only() && D::stack_only() && E::stack_only() && F::stack_only() && G::stack_only() && H::stack_only() && I::stack_only() }
    open spec fn heap(&self) -> nat { self.0.heap() + self.1.heap() + self.2.heap() + self.3.heap() + self.4.heap() + self.5.heap() + self.6.heap() + self.7.heap() + self.8.heap() }
    proof fn law_stack_only(&self) { self.0.law_stack_only(); self.1.law_stack_only(); self.2.law_stack_only(); self.3.law_stack_only(); self.4.law_stack_only(); self.5.law_stack_only(); self.6.law_stack_only(); self.7.law_stack_only(); self.8.law_stack_only(); }
//@ impl space_usage::<(A,B,C,D,E,F,G,H,I,J)asSpaceUsage>
    open spec fn stack_only() -> bool { A::stack_only() && B::stack_only() && C::stack_only() && D::stack_only() && E::stack_only() && F::stack_only() && G::stack_only() && H::stack_only() && I::stack_only() && J::stack_only() }
    open spec fn heap(&self) -> nat { self.0.heap() + self.1.heap() + self.2.heap() + self.3.heap() + self.4.heap() + self.5.heap() + self.6.heap() + self.7.heap() + self.8.heap() + self.9.heap() }
    proof fn law_stack_only(&self) { self.0.law_stack_only(); self.1.law_stack_only(); self.2.law_stack_only(); self.3.law_stack_only(); self.4.law_stack_only(); self.5.law_stack_only(); self.6.law_stack_only(); self.7.law_stack_only(); self.8.law_stack_only(); self.9.law_stack_only(); }
//@ impl space_usage::<(A,B,C,D,E,F,G,H,I,J,K)asSpaceUsage>
    open spec fn stack_only() -> bool { A::stack_only() && B::stack_only() && C::stack_only() && D::stack_only() && E::stack_only() && F::stack_only() && G::stack_only() && H::stack_only() && I::stack_only() && J::stack_only() && K::stack_only() }
    open spec fn heap(&self) -> nat { self.0.heap() + self.1.heap() + self.2.heap() + self.3.heap() + self.4.heap() + self.5.heap() + self.6.heap() + self.7.heap() + self.8.heap() + self.9.heap() + self.10.heap() }
    proof fn law_stack_only(&self) { self.0.law_stack_only(); self.1.law_stack_only(); self.2.law_stack_only(); self.3.law_stack_only(); self.4.law_stack_only(); self.5.law_stack_only(); self.6.law_stack_only(); self.7.law_stack_only(); self.8.law_stack_only(); self.9.law_stack_only(); self.10.law_stack_only(); }
//@ impl space_usage::<(A,B,C,D,E,F,G,H,I,J,K,L)asSpaceUsage>
    open spec fn stack_only() -> bool { A::stack_only() && B::stack_only() && C::stack_only() && D::stack_only() && E::stack_only() && F::stack_only() && G::stack_only() && H::stack_only() && I::stack_only() && J::stack_only() && K::stack_only() && L::stack_only() }
    open spec fn heap(&self) -> nat { self.0.heap() + self.1.heap() + self.2.heap() + self.3.heap() + self.4.heap() + self.5.heap() + self.6.heap() + self.7.heap() + self.8.heap() + self.9.heap() + self.10.heap() + self.11.heap() }
    proof fn law_stack_only(&self) { self.0.law_stack_only(); self.1.law_stack_only(); self.2.law_stack_only(); self.3.law_stack_only(); self.4.law_stack_only(); self.5.law_stack_only(); self.6.law_stack_only(); self.7.law_stack_only(); self.8.law_stack_only(); self.9.law_stack_only(); self.10.law_stack_only(); self.11.law_stack_only(); }
//@ impl space_usage::<Vec<A>asSpaceUsage>
    open spec fn stack_only() -> bool { false }
    open spec fn heap(&self) -> nat { vcap(*self) * size_of::<A>() + heaps(self@, self@.len() as int) }
    proof fn law_stack_only(&self) {  }
//@ impl space_usage::<Box<A>asSpaceUsage>
    open spec fn stack_only() -> bool { false }
    open spec fn heap(&self) -> nat { size_of::<A>() + (**self).heap() }
    proof fn law_stack_only(&self) {  }
//@ impl internal::vector_base::<VectorBase<Block>asSpaceUsage>
    open spec fn stack_only() -> bool { false }
    open spec fn heap(&self) -> nat { self.vec.heap() }
    proof fn law_stack_only(&self) {  }
//@ impl bit_vec::bit_vector::<BitVector<Block>asSpaceUsage>
    open spec fn stack_only() -> bool { false }
    open spec fn heap(&self) -> nat { self.0.heap() }
    proof fn law_stack_only(&self) {  }
//@ impl int_vec::int_vector::<IntVector<A>asSpaceUsage>
    open spec fn stack_only() -> bool { false }
    open spec fn heap(&self) -> nat { self.base.heap() }
    proof fn law_stack_only(&self) {  }
//@ impl bit_vec::bit_slice::<BitSlice<'a,Base>asSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl bit_vec::bit_slice::<BitSliceMut<'a,Base>asSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl rank::jacobson::<JacobsonRank<Store>asSpaceUsage>
    open spec fn stack_only() -> bool { false }
    open spec fn heap(&self) -> nat { self.large_block_ranks.heap() + self.small_block_ranks.heap() + self.bit_store.heap() }
    proof fn law_stack_only(&self) {  }
//@ impl rank::rank9::<Rank9CellasSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl rank::rank9::<Level2asSpaceUsage>
    open spec fn stack_only() -> bool { true }
    open spec fn heap(&self) -> nat { 0 }
    proof fn law_stack_only(&self) {  }
//@ impl rank::rank9::<Rank9<Store>asSpaceUsage>
    open spec fn stack_only() -> bool { false }
    open spec fn heap(&self) -> nat { self.bit_store.heap() + self.counts.heap() }
    proof fn law_stack_only(&self) {  }
//@ impl select::bin_search::<BinSearchSelect<Rank>asSpaceUsage>
    open spec fn stack_only() -> bool { Rank::stack_only() }
    open spec fn heap(&self) -> nat { self.rank_support.heap() }
    proof fn law_stack_only(&self) { self.rank_support.law_stack_only(); }
//@ fn space_usage::<Vec<A>asSpaceUsage>::heap_bytes
//@ entry
proof {
  let n = self@.len() as int;
  assert(heaps(self@, 0) == 0);
  if A::stack_only() { lemma_heaps_zero(self@, n); }
  assert(vcap(*self) * size_of::<A>() >= 0) by (nonlinear_arith);
}
//@ loop 0
invariant vx_i0 <= vx_s0@.len(), vx_s0@ == self@, self.heap() <= usize::MAX, self.heap() == vcap(*self) * size_of::<A>() + heaps(self@, self@.len() as int),
  result == vcap(*self) * size_of::<A>() + heaps(self@, vx_i0 as int),
decreases vx_s0@.len() - vx_i0
//@ before heap_bytes 0
proof { lemma_heaps_mono(self@, vx_i0 as int, self@.len() as int);
  assert(heaps(self@, vx_i0 as int) == heaps(self@, vx_i0 - 1) + self@[vx_i0 - 1].heap()); assert(vcap(*self) * size_of::<A>() >= 0) by (nonlinear_arith); }
