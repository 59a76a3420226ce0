//@ skip
internal::vector_base::<Iter<'a,Block>asPartialEq>
//@ use internal::vector_base
use crate::space_usage::*;
use std::mem;
use crate::vxp::*;
use crate::bit_vec::traits::{BitVec, BitVecMut};
use crate::storage::BlockType;

//@ mod internal::vector_base
impl<Block: BlockType> VectorBase<Block> {
    /// Canonical form for elements of eb bits: as many blocks as needed, unused bits zero.
    pub open spec fn wf0(self, eb: int) -> bool {
        &&& self.vec@.len() == cdiv(self.len * eb, Block::nb() as int)
        &&& 0 <= self.len * eb
        &&& forall|j: int| self.len * eb <= j < self.vec@.len() * Block::nb() ==> !#[trigger] vbits(self.vec@)[j]
    }
    pub open spec fn wf(self, eb: int) -> bool { self.wf0(eb) && 1 <= eb <= Block::nb() }
    /// the bits of the elements
    pub open spec fn ebits(self, eb: int) -> Seq<bool> { vbits(self.vec@).take(self.len * eb) }
    pub proof fn lemma_wf(&self, eb: int)
        requires self.wf0(eb)
        ensures self.len * eb <= self.vec@.len() * Block::nb() < self.len * eb + Block::nb(), isnb(Block::nb() as int),
            self.len * eb < 0x1000_0000_0000_0000, self.vec@.len() * Block::nb() < 0x1000_0000_0000_0000,
            vbits(self.vec@).len() == self.vec@.len() * Block::nb(), self.ebits(eb).len() == self.len * eb,
            self.vec.wf(), 
            vcap(self.vec) * Block::nb() < 0x1000_0000_0000_0000, self.vec@.len() <= vcap(self.vec),
    {
        Block::law_nb(); axiom_phys(&self.vec); lemma_cdiv(self.len * eb, Block::nb() as int); lemma_vbits(self.vec@);
    }
}
pub proof fn lemma_vbits_take<B: PrimInt>(v: Seq<B>, k: int)
    requires 0 <= k <= v.len()
    ensures vbits(v.take(k)) =~= vbits(v).take(k * B::nb())
{
    lemma_vbits(v); lemma_vbits(v.take(k)); lemma_mul_le(k, v.len() as int, B::nb() as int); let nb = B::nb() as int;
    assert forall|j: int| 0 <= j < k * nb implies #[trigger] vbits(v.take(k))[j] == vbits(v)[j] by { 
        lemma_addr(nb, j, k * nb); lemma_cdiv_unique(k * nb, nb, k); }
}
pub proof fn lemma_vbits_push<B: PrimInt>(v: Seq<B>, x: B)
    ensures vbits(v.push(x)) =~= vbits(v) + bits_of(x)
{
    lemma_vbits(v); lemma_vbits(v.push(x)); let nb = B::nb() as int; let n = v.len() as int;
    lemma_mul_succ(n, nb);
    assert forall|j: int| 0 <= j < (n + 1) * nb implies #[trigger] vbits(v.push(x))[j] == (vbits(v) + bits_of(x))[j] by { 
        lemma_addr(nb, j, (n + 1) * nb); lemma_cdiv_unique((n + 1) * nb, nb, n + 1);
        let b = j / nb;
        if b < n { assert(v.push(x)[b] == v[b]); lemma_mul_le(b + 1, n, nb); lemma_addr(nb, j, n * nb); }
        else { assert(b == n); assert(j - n * nb == j % nb); } }
}
/// room for m bits where there was room for n: at most one block of zeros more
pub proof fn lemma_pop_bit<B: PrimInt>(v0: Seq<B>, mid: Seq<B>, v1: Seq<B>, n: int)
    requires 0 <= n, n + 1 <= v0.len() * B::nb(), v0.len() == mid.len(),
        vbits(mid).take(n + 1) == vbits(v0).take(n + 1).update(n, false),
        forall|j: int| n + 1 <= j < mid.len() * B::nb() ==> !#[trigger] vbits(mid)[j],
        v1 == mid.take(cdiv(n, B::nb() as int)), cdiv(n, B::nb() as int) <= mid.len(),
    ensures n <= vbits(v1).len(), vbits(v1).take(n) == vbits(v0).take(n + 1).drop_last(), vbits(v1).len() == v1.len() * B::nb(), v1.len() == cdiv(n, B::nb() as int),
        forall|j: int| n <= j < v1.len() * B::nb() ==> !#[trigger] vbits(v1)[j],
{
    lemma_vbits(mid); lemma_vbits(v0);
    assert forall|j: int| 0 <= j < n implies #[trigger] vbits(mid).take(n + 1)[j] == vbits(v0).take(n + 1)[j] by { }
    lemma_cut(v0, mid, v1, n + 1, n);
    assert(vbits(v1).take(n) =~= vbits(v0).take(n + 1).drop_last());
}
pub proof fn lemma_grow<B: PrimInt>(v0: Seq<B>, v1: Seq<B>, n: int, m: int)
    requires 0 <= n <= m <= n + B::nb(), v0.len() == cdiv(n, B::nb() as int), forall|j: int| n <= j < v0.len() * B::nb() ==> !#[trigger] vbits(v0)[j],
        m <= v0.len() * B::nb() ==> v1 == v0,
        m > v0.len() * B::nb() ==> v1.len() == v0.len() + 1 && v1 == v0.push(v1.last()) && forall|i: int| !#[trigger] v1.last().bit(i),
    ensures v1.len() == cdiv(m, B::nb() as int), vbits(v1).len() == v1.len() * B::nb(), m <= v1.len() * B::nb(), n <= vbits(v0).len(), v0.len() * B::nb() == vbits(v0).len(),
        vbits(v1).take(n) =~= vbits(v0).take(n), forall|j: int| n <= j < v1.len() * B::nb() ==> !#[trigger] vbits(v1)[j],
{
    B::law_nb(); let nb = B::nb() as int; lemma_vbits(v0); lemma_vbits(v1); lemma_cdiv(n, nb); lemma_cdiv(m, nb); let b = v0.len() as int; lemma_mul_succ(b, nb);
    if v1 != v0 { let z = v1.last(); lemma_vbits_push(v0, z); lemma_cdiv_unique(m, nb, b + 1);
       assert forall|j: int| n <= j < v1.len() * nb implies !#[trigger] vbits(v1)[j] by { if j < b * nb { assert(!vbits(v0)[j]); } else { assert(!z.bit(j - b * nb)); } } }
    else { lemma_cdiv_unique(m, nb, b); }
}
pub open spec fn resized<B>(v: Seq<B>, n: nat, x: B) -> Seq<B> { Seq::new(n, |i: int| if i < v.len() { v[i] } else { x }) }
/// the bits of a resized block vector
pub proof fn lemma_vbits_resize<B: PrimInt>(v: Seq<B>, n: nat, x: B)
    ensures vbits(resized(v, n, x)).len() == n * B::nb(),
        forall|j: int| 0 <= j < n * B::nb() && j < v.len() * B::nb() ==> #[trigger] vbits(resized(v, n, x))[j] == vbits(v)[j],
        forall|j: int| 0 <= j < n * B::nb() && j >= v.len() * B::nb() ==> #[trigger] vbits(resized(v, n, x))[j] == x.bit(j % (B::nb() as int)),
{
    let w = resized(v, n, x); let nb = B::nb() as int;
    lemma_vbits(v); lemma_vbits(w);
    assert forall|j: int| 0 <= j < n * B::nb() implies 0 <= #[trigger] (j / nb) < n && (j / nb < v.len() <==> j < v.len() * B::nb()) by {
        lemma_addr(nb, j, n * nb); lemma_cdiv_unique(n * nb, nb, n as int);
        if j < v.len() * nb { lemma_addr(nb, j, v.len() * nb); lemma_cdiv_unique(v.len() * nb, nb, v.len() as int); }
        else if j / nb < v.len() { lemma_mul_le(j / nb + 1, v.len() as int, nb); }
    }
}

//@ fn internal::vector_base::len_to_block_len
ensures r == (if len * element_bits <= u64::MAX { Some(cdiv(len * element_bits, Block::nb() as int) as usize) } else { None })
//@ entry
proof { Block::law_nb(); }
//@ fn internal::vector_base::VectorBase::clear_extra_bits
requires old(self).len * element_bits <= u64::MAX
ensures final(self).len == old(self).len, final(self).vec@.len() == old(self).vec@.len(), vcap(final(self).vec) == vcap(old(self).vec),
    old(self).vec@.len() == cdiv(old(self).len * element_bits, Block::nb() as int) ==> 
       final(self).wf0(element_bits as int) && final(self).ebits(element_bits as int) == old(self).ebits(element_bits as int)
//@ entry
let ghost v0 = self.vec@; let ghost nb = Block::nb() as int; let ghost n = self.len * element_bits; let ghost b = self.vec@.len();
proof { Block::law_nb(); Block::laws(); 
  assert(0 <= n) by (nonlinear_arith) requires n == self.len * element_bits; lemma_lastbits(nb, n); }
//@ exit
proof { 
  if b == cdiv(n, nb) { 
    if b > 0 { assert(self.vec@ =~= v0.update(b - 1, self.vec@[b - 1])); lemma_clear_extra(v0, self.vec@[b - 1], n); }
    else { lemma_vbits(v0); assert(self.vec@ =~= v0); lemma_cdiv(n, nb); }
    assert(self.ebits(element_bits as int) =~= old(self).ebits(element_bits as int));
  }
}
//@ fn internal::vector_base::VectorBase::set_len_from_blocks
requires element_bits > 0
ensures final(self).len == (old(self).vec@.len() * Block::nb()) as int / (element_bits as int), final(self).vec@.len() == old(self).vec@.len(),
    element_bits <= Block::nb() ==> final(self).wf0(element_bits as int), final(self).len * element_bits <= old(self).vec@.len() * Block::nb(),
    element_bits <= Block::nb() ==> final(self).ebits(element_bits as int) == vbits(old(self).vec@).take(final(self).len * element_bits), vcap(final(self).vec) == vcap(old(self).vec),
//@ entry
let ghost eb = element_bits as int; let ghost nb = Block::nb() as int; let ghost b = self.vec@.len() as int;
proof { Block::law_nb(); axiom_phys(&self.vec); 
    lemma_floor_blocks(nb, b, eb); 
}
//@ fn internal::vector_base::VectorBase::new
ensures r.len == 0, r.vec@.len() == 0, forall|eb: int| #[trigger] r.wf0(eb)
//@ fn internal::vector_base::VectorBase::block_with_capacity
ensures r.len == 0, r.vec@.len() == 0, forall|eb: int| #[trigger] r.wf0(eb), vcap(r.vec) >= block_capacity
//@ entry
proof { Block::law_nb(); lemma_cdiv(0, Block::nb() as int); assert(forall|eb: int| #[trigger] (0 * eb) == 0) by (nonlinear_arith); }
//@ fn internal::vector_base::VectorBase::with_capacity
requires panics_allowed() || capacity * element_bits <= u64::MAX
ensures r.len == 0, r.vec@.len() == 0, forall|eb: int| #[trigger] r.wf0(eb), capacity * element_bits <= u64::MAX,
   vcap(r.vec) >= cdiv(capacity * element_bits, Block::nb() as int)
//@ entry
proof { Block::law_nb(); assert(0 <= capacity * element_bits) by (nonlinear_arith); if capacity * element_bits <= u64::MAX { lemma_cdiv(capacity * element_bits, Block::nb() as int); lemma_blk(Block::nb() as int, 0, capacity * element_bits);  } }
//@ fn internal::vector_base::VectorBase::block_with_fill
requires element_bits > 0
ensures r.vec@.len() == block_len, r.len == (block_len * Block::nb()) as int / (element_bits as int), element_bits <= Block::nb() ==> r.wf0(element_bits as int),
   element_bits <= Block::nb() ==> r.ebits(element_bits as int).len() == r.len * element_bits, 
   element_bits <= Block::nb() ==> forall|j: int| 0 <= j < r.len * element_bits ==> #[trigger] r.ebits(element_bits as int)[j] == fill.bit(j % (Block::nb() as int)),
//@ exit
proof { let v = Seq::new(block_len as nat, |i: int| fill); lemma_vbits(v); assert(v =~= resized(Seq::<Block>::empty(), block_len as nat, fill)); lemma_vbits_resize(Seq::<Block>::empty(), block_len as nat, fill); 
  assert(0 <= vx_ret.len * element_bits) by (nonlinear_arith); }
//@ fn internal::vector_base::VectorBase::with_fill
requires panics_allowed() || (len * element_bits <= u64::MAX && element_bits <= Block::nb())
ensures len * element_bits <= u64::MAX, len > 0 ==> element_bits <= Block::nb(), r.len == len, r.wf0(element_bits as int),
   forall|p: int| 0 <= p < len * element_bits ==> #[trigger] r.ebits(element_bits as int)[p] == value.bit(p % (element_bits as int)),
//@ entry
let ghost eb = element_bits as int; 
proof { Block::law_nb(); assert(0 <= len * element_bits) by (nonlinear_arith); 
   if len * element_bits <= u64::MAX { lemma_cdiv(len * element_bits, Block::nb() as int); lemma_blk(Block::nb() as int, 0, len * element_bits); } }
//@ pre 0
proof { let v = result.vec@; lemma_vbits(v); if len * eb > 0 { let z = v[0]; assert(v =~= resized(Seq::<Block>::empty(), v.len(), z)); lemma_vbits_resize(Seq::<Block>::empty(), v.len(), z); } 
   else { lemma_cdiv(0, Block::nb() as int); } }
//@ loop 0
invariant vx_e0 == len, vx_i0 <= vx_e0, eb == element_bits, result.len == len, result.wf0(eb), len * eb <= u64::MAX, vx_i0 > 0 ==> eb <= Block::nb(),
   panics_allowed() || eb <= Block::nb(),
   forall|p: int| 0 <= p < vx_i0 * eb ==> #[trigger] result.ebits(eb)[p] == value.bit(p % eb),
decreases vx_e0 - vx_i0
//@ before set_bits 0
let ghost pre = result.ebits(eb);
proof { result.lemma_wf(eb); lemma_step(i as int, len as int, eb); }
//@ after set_bits 0
proof { 
  assert forall|p: int| 0 <= p < vx_i0 * eb implies #[trigger] result.ebits(eb)[p] == value.bit(p % eb) by {
    if p < i * eb { assert(result.ebits(eb)[p] == pre[p]); } else { lemma_mod_in(p, i as int, eb); }
  }
}
//@ fn internal::vector_base::VectorBase::get_block
requires panics_allowed() || block_index < self.vec@.len()
ensures block_index < self.vec@.len(), r == self.vec@[block_index as int]
//@ fn internal::vector_base::VectorBase::set_block
requires old(self).wf0(element_bits as int), panics_allowed() || block_index < old(self).vec@.len()
ensures block_index < old(self).vec@.len(), final(self).wf0(element_bits as int), final(self).len == old(self).len,
   final(self).ebits(element_bits as int) == overwrite(old(self).ebits(element_bits as int), block_index * Block::nb(), 
       min2(Block::nb() as int, old(self).len * element_bits - block_index * Block::nb()), |i: int| value.bit(i))
//@ entry
let ghost eb = element_bits as int; let ghost nb = Block::nb() as int; let ghost n = self.len * eb; let ghost b = block_index as int;
proof { self.lemma_wf(eb); Block::law_nb(); axiom_phys(&self.vec); lemma_vbits(self.vec@); lemma_blk(nb, b, n);
  if b < self.vec@.len() { lemma_vbits_update(self.vec@, b, value); lemma_blk(nb, self.vec@.len() - 1, n); } }
//@ exit
proof { lemma_vbits(self.vec@); lemma_vbits(old(self).vec@); let want = overwrite(old(self).ebits(eb), b * nb, min2(nb, n - b * nb), |i: int| value.bit(i));
  assert(self.ebits(eb) =~= want); }
//@ refuse
//@ fn internal::vector_base::VectorBase::get_bits
requires self.wf0(element_bits as int), panics_allowed() || (index + count <= self.len * element_bits && count <= Block::nb())
ensures index + count <= self.len * element_bits, count <= Block::nb(),
    forall|i: int| #[trigger] r.bit(i) == (0 <= i < count && self.ebits(element_bits as int)[index + i])
//@ entry
proof { self.lemma_wf(element_bits as int); }
//@ fn internal::vector_base::VectorBase::set_bits
requires old(self).wf0(element_bits as int), panics_allowed() || (index + count <= old(self).len * element_bits && count <= Block::nb())
ensures index + count <= old(self).len * element_bits, count <= Block::nb(), final(self).wf0(element_bits as int), final(self).len == old(self).len,
    final(self).vec@.len() == old(self).vec@.len(),
    final(self).ebits(element_bits as int) == overwrite(old(self).ebits(element_bits as int), index as int, count as int, |i: int| value.bit(i)), 
//@ entry
proof { self.lemma_wf(element_bits as int); }
//@ exit
proof { lemma_vbits(self.vec@); Block::law_nb(); axiom_phys(&self.vec);
  let eb = element_bits as int; let nb = Block::nb() as int; let n = self.len * eb;
  lemma_same_blocks(nb, self.vec@.len() as int, old(self).vec@.len() as int);
  let full = vbits(self.vec@); let full0 = vbits(old(self).vec@);
  assert(full == overwrite(full0, index as int, count as int, |i: int| value.bit(i)));
  assert forall|j: int| n <= j < self.vec@.len() * nb implies !#[trigger] full[j] by { assert(!full0[j]); }
  assert(self.ebits(eb) =~= overwrite(old(self).ebits(eb), index as int, count as int, |i: int| value.bit(i))); }
//@ refuse
//@ refuse before set_bits 0
index + count <= vbits(self.vec@).len() && count <= Block::nb()
//@ fn internal::vector_base::VectorBase::get_bit
requires self.wf0(1), panics_allowed() || index < self.len
ensures index < self.len, r == self.ebits(1)[index as int]
//@ entry
proof { self.lemma_wf(1); }
//@ fn internal::vector_base::VectorBase::set_bit
requires old(self).wf0(1), panics_allowed() || index < old(self).len
ensures index < old(self).len, final(self).wf0(1), final(self).len == old(self).len, final(self).vec@.len() == old(self).vec@.len(),
    final(self).ebits(1) == old(self).ebits(1).update(index as int, value)
//@ entry
proof { self.lemma_wf(1); }
//@ exit
proof { lemma_vbits(self.vec@); Block::law_nb(); axiom_phys(&self.vec);
  let nb = Block::nb() as int; let n = self.len * 1;
  lemma_same_blocks(nb, self.vec@.len() as int, old(self).vec@.len() as int);
  let full = vbits(self.vec@); let full0 = vbits(old(self).vec@);
  assert(full == full0.update(index as int, value));
  assert forall|j: int| n <= j < self.vec@.len() * nb implies !#[trigger] full[j] by { assert(!full0[j]); }
  assert(self.ebits(1) =~= old(self).ebits(1).update(index as int, value)); }
//@ refuse
//@ refuse before set_bit 0
index < vbits(self.vec@).len()
//@ fn internal::vector_base::VectorBase::push_block
requires old(self).wf0(element_bits as int), 1 <= element_bits <= Block::nb()
ensures final(self).wf0(element_bits as int), final(self).len == ((old(self).vec@.len() + 1) * Block::nb()) as int / (element_bits as int),
   final(self).ebits(element_bits as int) == (vbits(old(self).vec@) + bits_of(value)).take(final(self).len * element_bits),
   old(self).vec@.len() < vcap(old(self).vec) ==> vcap(final(self).vec) == vcap(old(self).vec),
//@ entry
proof { lemma_vbits_push(self.vec@, value); }
//@ fn internal::vector_base::VectorBase::pop_block
requires old(self).wf0(element_bits as int), 1 <= element_bits <= Block::nb()
ensures final(self).wf0(element_bits as int), 
   old(self).len == 0 ==> r is None && final(self).len == 0, old(self).vec@.len() > 0 ==> r == Some(old(self).vec@.last()) && 
     final(self).len == ((old(self).vec@.len() - 1) * Block::nb()) as int / (element_bits as int) && final(self).len <= old(self).len
     && final(self).ebits(element_bits as int) == old(self).ebits(element_bits as int).take(final(self).len * element_bits)
//@ entry
let ghost eb = element_bits as int; let ghost nb = Block::nb() as int;
proof { self.lemma_wf(eb); if self.len == 0 { assert(self.len * eb == 0) by (nonlinear_arith) requires self.len == 0; lemma_cdiv(0, nb); }
   assert(0int / eb == 0) by (nonlinear_arith) requires eb > 0; }
//@ exit
proof { if old(self).vec@.len() > 0 { let k = old(self).vec@.len() - 1; 
   assert(old(self).vec@.drop_last() =~= old(self).vec@.take(k)); lemma_vbits_take(old(self).vec@, k); 
   lemma_mul_succ(k, nb);
   lemma_floor_blocks(nb, k, eb); lemma_len_le(self.len as int, old(self).len as int, eb, k * nb);
   assert(self.ebits(eb) =~= old(self).ebits(eb).take(self.len * eb)); } }
//@ fn internal::vector_base::VectorBase::push_bits
requires old(self).wf(element_bits as int)
ensures final(self).wf(element_bits as int), final(self).len == old(self).len + 1,
   final(self).ebits(element_bits as int) == old(self).ebits(element_bits as int) + Seq::new(element_bits as nat, |i: int| value.bit(i)),
//@ entry
let ghost eb = element_bits as int; let ghost nb = Block::nb() as int; let ghost n = self.len * eb;
proof { self.lemma_wf(eb); Block::law_nb(); lemma_mul_succ(self.len as int, eb); lemma_cdiv(n, nb); lemma_cdiv(n + eb, nb);
  assert(self.len <= n) by (nonlinear_arith) requires n == self.len * eb, eb >= 1; }
//@ before set_bits 0
proof { lemma_grow(old(self).vec@, self.vec@, n, n + eb);
  assert(self.ebits(eb).take(n) =~= old(self).ebits(eb)); }
//@ exit
proof { assert(self.ebits(eb) =~= old(self).ebits(eb) + Seq::new(element_bits as nat, |i: int| value.bit(i))) by {
    assert forall|j: int| 0 <= j < n implies #[trigger] self.ebits(eb)[j] == old(self).ebits(eb)[j] by { assert(old(self).ebits(eb)[j] == vbits(old(self).vec@)[j]); } } }
//@ fn internal::vector_base::VectorBase::pop_bits
requires old(self).wf(element_bits as int)
ensures final(self).wf(element_bits as int), old(self).len == 0 ==> r is None && *final(self) == *old(self),
    old(self).len > 0 ==> final(self).len == old(self).len - 1 && r is Some
       && final(self).ebits(element_bits as int) == old(self).ebits(element_bits as int).take(final(self).len * element_bits)
       && forall|i: int| #[trigger] r->Some_0.bit(i) == (0 <= i < element_bits && old(self).ebits(element_bits as int)[(old(self).len - 1) * element_bits + i])
//@ entry
let ghost eb = element_bits as int; let ghost nb = Block::nb() as int; let ghost n = (self.len - 1) * eb;
proof { self.lemma_wf(eb); Block::law_nb(); lemma_mul_succ(self.len as int, eb); lemma_mul_succ(self.len - 1, eb);
  if self.len > 0 { assert(n >= 0) by (nonlinear_arith) requires n == (self.len - 1) * eb, self.len > 0, eb >= 1; 
   lemma_cdiv(n, nb); lemma_cdiv(n + eb, nb); lemma_cdiv_mono(n, n + eb, nb); lemma_cdiv_step(n, eb, nb); } }
//@ after set_bits 0
let ghost mid = self.vec@;
//@ exit
proof { if old(self).len > 0 { let b = mid.len() as int; lemma_vbits(mid);
  assert(self.vec@ =~= mid.take(cdiv(n, nb)));
  lemma_cut(old(self).vec@, mid, self.vec@, n + eb, n);
  assert(self.ebits(eb) =~= vbits(self.vec@).take(n));
  assert(self.ebits(eb) =~= old(self).ebits(eb).take(n));
} }
//@ fn internal::vector_base::VectorBase::push_bit
requires old(self).wf(1)
ensures final(self).wf(1), final(self).len == old(self).len + 1, final(self).ebits(1) == old(self).ebits(1).push(value),
//@ entry
let ghost nb = Block::nb() as int; let ghost n = self.len as int;
proof { self.lemma_wf(1); Block::law_nb(); lemma_cdiv(n, nb); lemma_cdiv(n + 1, nb); }
//@ before set_bit 0
proof { lemma_grow(old(self).vec@, self.vec@, n, n + 1);
  assert(self.ebits(1).take(n) =~= old(self).ebits(1)); }
//@ exit
proof { assert(self.ebits(1) =~= old(self).ebits(1).push(value)) by {
    assert forall|j: int| 0 <= j < n implies #[trigger] self.ebits(1)[j] == old(self).ebits(1)[j] by { assert(old(self).ebits(1)[j] == vbits(old(self).vec@)[j]); } } }
//@ fn internal::vector_base::VectorBase::pop_bit
requires old(self).wf(1)
ensures final(self).wf(1), old(self).len == 0 ==> r is None && *final(self) == *old(self),
    old(self).len > 0 ==> final(self).len == old(self).len - 1 && r == Some(old(self).ebits(1).last()) && final(self).ebits(1) == old(self).ebits(1).drop_last()
//@ entry
let ghost nb = Block::nb() as int; let ghost n = self.len - 1;
proof { self.lemma_wf(1); Block::law_nb(); 
  if self.len > 0 { lemma_cdiv(n, nb); lemma_cdiv(n + 1, nb); lemma_cdiv_mono(n, n + 1, nb); lemma_cdiv_step(n, 1, nb); } }
//@ after set_bit 0
let ghost mid = self.vec@;
proof { assert(vbits(mid).take(n + 1) == vbits(old(self).vec@).take(n + 1).update(n, false)); }
//@ exit
proof { if old(self).len > 0 {
  assert(self.vec@ =~= mid.take(cdiv(n, nb)));
  lemma_pop_bit(old(self).vec@, mid, self.vec@, n);
} }
//@ fn internal::vector_base::VectorBase::block_len
ensures r == self.vec@.len()
//@ fn internal::vector_base::VectorBase::len
ensures r == self.len
//@ fn internal::vector_base::VectorBase::is_empty
ensures r == (self.vec@.len() == 0)
//@ fn internal::vector_base::VectorBase::block_capacity
ensures r == vcap(self.vec)
//@ fn internal::vector_base::VectorBase::capacity
requires element_bits > 0
ensures r == (vcap(self.vec) * Block::nb()) as int / (element_bits as int)
//@ entry
proof { axiom_phys(&self.vec); Block::law_nb(); }
//@ fn internal::vector_base::VectorBase::block_truncate
requires old(self).wf(element_bits as int)
ensures final(self).wf(element_bits as int), vcap(final(self).vec) == vcap(old(self).vec),
   block_len >= old(self).vec@.len() ==> *final(self) == *old(self),
   block_len < old(self).vec@.len() ==> final(self).vec@.len() == block_len && final(self).len == (block_len * Block::nb()) as int / (element_bits as int) && final(self).len <= old(self).len
     && final(self).ebits(element_bits as int) == old(self).ebits(element_bits as int).take(final(self).len * element_bits)
//@ entry
let ghost eb = element_bits as int; let ghost nb = Block::nb() as int;
proof { self.lemma_wf(eb); }
//@ exit
proof { if block_len < old(self).vec@.len() { let k = block_len as int; 
   lemma_vbits_take(old(self).vec@, k); lemma_mul_succ(k, nb); lemma_mul_le(k + 1, old(self).vec@.len() as int, nb);
   lemma_floor_blocks(nb, k, eb); lemma_len_le(self.len as int, old(self).len as int, eb, k * nb);
   assert(self.ebits(eb) =~= old(self).ebits(eb).take(self.len * eb)); } }
//@ fn internal::vector_base::VectorBase::truncate
requires old(self).wf(element_bits as int)
ensures final(self).wf(element_bits as int), vcap(final(self).vec) == vcap(old(self).vec),
   len >= old(self).len ==> *final(self) == *old(self),
   len < old(self).len ==> final(self).len == len && final(self).ebits(element_bits as int) == old(self).ebits(element_bits as int).take(len * element_bits)
//@ entry
let ghost eb = element_bits as int; let ghost nb = Block::nb() as int;
proof { self.lemma_wf(eb); Block::law_nb(); if len < self.len { lemma_mul_le(len as int, self.len as int, eb); lemma_mul_le(0, len as int, eb); 
   lemma_cdiv(len * eb, nb); lemma_cdiv_mono(len * eb, self.len * eb, nb); lemma_blk(nb, 0, len * eb); } }
//@ exit
proof { if len < old(self).len { let k = cdiv(len * eb, nb); lemma_vbits_take(old(self).vec@, k); lemma_vbits(old(self).vec@);
   assert(old(self).vec@.take(old(self).vec@.len() as int) =~= old(self).vec@);
   lemma_mul_le(k, old(self).vec@.len() as int, nb);
   assert(self.ebits(eb) =~= old(self).ebits(eb).take(len * eb)); } }
//@ fn internal::vector_base::VectorBase::clear
ensures final(self).len == 0, final(self).vec@.len() == 0, forall|eb: int| #[trigger] final(self).wf0(eb), vcap(final(self).vec) == vcap(old(self).vec)
//@ entry
proof { Block::law_nb(); lemma_cdiv(0, Block::nb() as int); assert(forall|eb: int| #[trigger] (0 * eb) == 0) by (nonlinear_arith); }
//@ fn internal::vector_base::VectorBase::shrink_to_fit
ensures final(self).len == old(self).len, final(self).vec@ == old(self).vec@
//@ fn internal::vector_base::VectorBase::block_reserve
ensures final(self).len == old(self).len, final(self).vec@ == old(self).vec@, vcap(final(self).vec) >= old(self).vec@.len() + additional, vcap(final(self).vec) >= vcap(old(self).vec)
//@ fn internal::vector_base::VectorBase::block_reserve_exact
ensures final(self).len == old(self).len, final(self).vec@ == old(self).vec@, vcap(final(self).vec) >= old(self).vec@.len() + additional, vcap(final(self).vec) >= vcap(old(self).vec)
//@ fn internal::vector_base::VectorBase::additional_blocks
requires self.wf(element_bits as int), panics_allowed() || (self.len + additional) * element_bits <= u64::MAX
ensures (self.len + additional) * element_bits <= u64::MAX, r + self.vec@.len() >= cdiv((self.len + additional) * element_bits, Block::nb() as int)
//@ entry
proof { Block::law_nb(); let t = (self.len + additional) * element_bits; assert(0 <= t && self.len + additional <= t) by (nonlinear_arith) requires t == (self.len + additional) * element_bits, element_bits >= 1; 
  if t <= u64::MAX { lemma_blk(Block::nb() as int, 0, t); } }
//@ fn internal::vector_base::VectorBase::reserve
requires old(self).wf(element_bits as int), panics_allowed() || (old(self).len + additional) * element_bits <= u64::MAX
ensures (old(self).len + additional) * element_bits <= u64::MAX, final(self).len == old(self).len, final(self).vec@ == old(self).vec@, 
   (vcap(final(self).vec) * Block::nb()) as int / (element_bits as int) >= old(self).len + additional,
//@ exit
proof { lemma_cap(Block::nb() as int, vcap(self.vec) as int, element_bits as int, old(self).len + additional); }
//@ entry
proof { Block::law_nb(); }
//@ fn internal::vector_base::VectorBase::reserve_exact
requires old(self).wf(element_bits as int), panics_allowed() || (old(self).len + additional) * element_bits <= u64::MAX
ensures (old(self).len + additional) * element_bits <= u64::MAX, final(self).len == old(self).len, final(self).vec@ == old(self).vec@, 
   (vcap(final(self).vec) * Block::nb()) as int / (element_bits as int) >= old(self).len + additional,
//@ exit
proof { lemma_cap(Block::nb() as int, vcap(self.vec) as int, element_bits as int, old(self).len + additional); }
//@ entry
proof { Block::law_nb(); }
//@ fn internal::vector_base::VectorBase::block_resize
requires old(self).wf(element_bits as int)
ensures final(self).wf(element_bits as int), final(self).vec@.len() == block_len, final(self).len == (block_len * Block::nb()) as int / (element_bits as int),
   final(self).ebits(element_bits as int) == vbits(resized(old(self).vec@, block_len as nat, fill)).take(final(self).len * element_bits),
//@ entry
proof { self.lemma_wf(element_bits as int); }
//@ after resize 0
proof { assert(self.vec@ =~= resized(old(self).vec@, block_len as nat, fill)); }
//@ fn internal::vector_base::VectorBase::resize
requires old(self).wf(element_bits as int), panics_allowed() || len * element_bits <= u64::MAX
ensures len * element_bits <= u64::MAX, final(self).wf(element_bits as int), final(self).len == len,
   forall|p: int| 0 <= p < len * element_bits ==> #[trigger] final(self).ebits(element_bits as int)[p] == 
     (if p < old(self).len * element_bits { old(self).ebits(element_bits as int)[p] } else { fill.bit(p % (element_bits as int)) }),
//@ entry
let ghost eb = element_bits as int; let ghost nb = Block::nb() as int; let ghost n = len * eb;
proof { self.lemma_wf(eb); Block::law_nb(); assert(0 <= n) by (nonlinear_arith) requires n == len * eb, eb >= 0; 
  lemma_cdiv(n, nb); lemma_blk(nb, 0, n); }
//@ after resize 0
proof { let z: Block = if block_len > old(self).vec@.len() { self.vec@[old(self).vec@.len() as int] } else { arbitrary() };
  assert(self.vec@ =~= resized(old(self).vec@, block_len as nat, z)); lemma_vbits_resize(old(self).vec@, block_len as nat, z); 
  lemma_vbits(self.vec@); lemma_vbits(old(self).vec@); 
  assert forall|j: int| 0 <= j < block_len * nb implies #[trigger] vbits(self.vec@)[j] == (j < old(self).len * eb && old(self).ebits(eb)[j]) by {
     if j < old(self).vec@.len() * nb { if j >= old(self).len * eb { assert(!vbits(old(self).vec@)[j]); } } } 
  if old(self).len <= len { lemma_mul_le(old(self).len as int, len as int, eb); } }
let ghost mid = vbits(self.vec@);
//@ loop 0
invariant vx_e0 == len, old_len <= vx_i0 <= vx_e0, eb == element_bits, self.len == len, self.wf(eb), len * eb <= u64::MAX, old_len * eb <= vx_i0 * eb,
   forall|p: int| 0 <= p < vx_i0 * eb ==> #[trigger] self.ebits(eb)[p] == (if p < old_len * eb { mid[p] } else { fill.bit(p % eb) }),
decreases vx_e0 - vx_i0
//@ before clear_extra_bits 0
proof { lemma_mul_le(len as int, old_len as int, eb); assert(self.ebits(eb) =~= mid.take(n)); }
//@ after clear_extra_bits 0
proof { assert(self.ebits(eb) =~= mid.take(n)); }
//@ before set_bits 0
let ghost pre = self.ebits(eb);
proof { self.lemma_wf(eb); lemma_step(i as int, len as int, eb); lemma_mul_le(old_len as int, i as int, eb); }
//@ after set_bits 0
proof { 
  assert forall|p: int| 0 <= p < vx_i0 * eb implies #[trigger] self.ebits(eb)[p] == (if p < old_len * eb { mid[p] } else { fill.bit(p % eb) }) by {
    if p < i * eb { assert(self.ebits(eb)[p] == pre[p]); } else { lemma_mod_in(p, i as int, eb); }
  }
}

//@ mod internal::vector_base
pub open spec fn lastbits(n: int, nb: int) -> int { if n % nb == 0 { nb } else { n % nb } }
pub proof fn lemma_lastbits(nb: int, n: int)
    requires isnb(nb), 0 <= n
    ensures 1 <= lastbits(n, nb) <= nb, n > 0 ==> n == (cdiv(n, nb) - 1) * nb + lastbits(n, nb)
{ lemma_cdiv(n, nb); lemma_mul_succ(cdiv(n, nb), nb); if nb == 8 {} else if nb == 16 {} else if nb == 32 {} else {} }
/// masking the last block
pub proof fn lemma_clear_extra<B: PrimInt>(v: Seq<B>, x: B, n: int)
    requires v.len() == cdiv(n, B::nb() as int), 0 < n, 
       forall|i: int| #[trigger] x.bit(i) == (v[v.len() - 1].bit(i) && i < lastbits(n, B::nb() as int)), v.len() > 0
    ensures forall|j: int| 0 <= j < n ==> #[trigger] vbits(v.update(v.len() - 1, x))[j] == vbits(v)[j],
       forall|j: int| n <= j < v.len() * B::nb() ==> !#[trigger] vbits(v.update(v.len() - 1, x))[j],
       n <= v.len() * B::nb(),  vbits(v).len() == v.len() * B::nb(), 
{
    B::law_nb(); let nb = B::nb() as int; let b = v.len() as int; let w = v.update(b - 1, x); 
    lemma_vbits(v); lemma_vbits(w); lemma_lastbits(nb, n); lemma_mul_succ(b, nb); 
    assert(0 <= b * nb) by (nonlinear_arith) requires 0 <= b, 0 <= nb;
    assert forall|j: int| 0 <= j < b * nb implies #[trigger] vbits(w)[j] == (vbits(v)[j] && j < n) by {
        lemma_addr(nb, j, b * nb); lemma_cdiv_unique(b * nb, nb, b);
        if j / nb < b - 1 { lemma_mul_le(j / nb + 1, b - 1, nb); } else { assert(j / nb == b - 1); }
    }
}
/// as many elements of eb bits as fit in b blocks need all b blocks
pub proof fn lemma_floor_blocks(nb: int, b: int, eb: int)
    requires isnb(nb), 0 <= b, 0 < eb
    ensures 0 <= (b * nb) / eb <= b * nb, 0 <= ((b * nb) / eb) * eb <= b * nb, eb <= nb ==> b == cdiv(((b * nb) / eb) * eb, nb),
       eb == 1 ==> (b * nb) / eb == b * nb,
{
    assert(0 <= b * nb) by (nonlinear_arith) requires 0 <= b, 0 <= nb;
    let q = (b * nb) / eb;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b * nb, eb);
    lemma_mul_succ(q, eb);
    assert(0 <= q && q <= b * nb && 0 <= q * eb) by (nonlinear_arith) requires q == (b * nb) / eb, 0 <= b * nb, eb > 0;
    if eb <= nb { lemma_cdiv_unique(q * eb, nb, b); }
}
pub proof fn lemma_floor_all(nb: int)
    ensures forall|x: int| #[trigger] (x / 1) == x, 
{ }
pub proof fn lemma_len_le(a: int, b: int, eb: int, x: int)
    requires a * eb <= x <= b * eb, eb > 0
    ensures a <= b, a * eb <= b * eb
{ assert(a <= b) by (nonlinear_arith) requires a * eb <= b * eb, eb > 0; }
pub proof fn lemma_step(i: int, len: int, eb: int)
    requires 0 <= i < len, 0 <= eb
    ensures 0 <= i * eb, i * eb + eb <= len * eb, (i + 1) * eb == i * eb + eb
{ lemma_mul_succ(i, eb); lemma_mul_le(i + 1, len, eb); lemma_mul_le(0, i, eb); }
pub proof fn lemma_mod_in(p: int, i: int, eb: int)
    requires 0 <= i, i * eb <= p < i * eb + eb
    ensures p % eb == p - i * eb, p / eb == i
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p, eb, i, p - i * eb); }
pub proof fn lemma_same_blocks(nb: int, a: int, b: int)
    requires isnb(nb), a * nb == b * nb
    ensures a == b
{ assert(a == b) by (nonlinear_arith) requires a * nb == b * nb, nb > 0; }
/// going from n + eb bits to n bits frees at most one block
pub proof fn lemma_cdiv_step(n: int, eb: int, nb: int)
    requires isnb(nb), 0 <= n, 1 <= eb <= nb
    ensures cdiv(n, nb) <= cdiv(n + eb, nb) <= cdiv(n, nb) + 1
{ if nb == 8 {} else if nb == 16 {} else if nb == 32 {} else {} }
pub proof fn lemma_cap(nb: int, cap: int, eb: int, n: int)
    requires isnb(nb), 1 <= eb, 0 <= n, cap >= cdiv(n * eb, nb)
    ensures (cap * nb) / eb >= n
{
    lemma_mul_le(0, n, eb); lemma_cdiv(n * eb, nb); lemma_mul_le(cdiv(n * eb, nb), cap, nb);
    vstd::arithmetic::div_mod::lemma_div_is_ordered(n * eb, cap * nb, eb);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(n, eb); lemma_mul_succ(n, eb);
}

impl<'a, Block: BlockType> Iter<'a, Block> {
    pub open spec fn wf(self) -> bool {
        self.data.wf(self.element_bits as int) && self.start <= self.limit <= self.data.len
    }
    /// bit i of element k of the underlying vector
    pub open spec fn ebit(self, k: int, i: int) -> bool {
        0 <= i < self.element_bits && self.data.ebits(self.element_bits as int)[k * self.element_bits + i]
    }
    pub open spec fn is_elem(self, r: Block, k: int) -> bool { forall|i: int| #[trigger] r.bit(i) == self.ebit(k, i) }
    /// the same iterator with other ends
    pub open spec fn moved(self, to: Self, a: int, z: int) -> bool {
        to.data == self.data && to.element_bits == self.element_bits && to.start == a && to.limit == z
    }
    pub proof fn lemma_elem(&self, k: int)
        requires self.wf(), 0 <= k < self.limit
        ensures 0 <= k * self.element_bits, k * self.element_bits + self.element_bits <= self.data.len * self.element_bits, self.element_bits * k == k * self.element_bits,
            self.data.len * self.element_bits < 0x1000_0000_0000_0000, self.data.len <= self.data.len * self.element_bits,
    { self.data.lemma_wf(self.element_bits as int); lemma_step(k, self.data.len as int, self.element_bits as int); lemma_mul_succ(k, self.element_bits as int);
      let eb = self.element_bits as int; let n = self.data.len as int; assert(n <= n * eb) by (nonlinear_arith) requires eb >= 1, n >= 0; }
}
//@ fn internal::vector_base::Iter::new
requires data.wf(element_bits as int)
ensures r.wf(), r.start == 0, r.limit == data.len, r.element_bits == element_bits, r.data == data
//@ fn internal::vector_base::<Iter<'a,Block>asIterator>::next
requires old(self).wf()
ensures final(self).wf(),
   old(self).start >= old(self).limit ==> r is None && *final(self) == *old(self),
   old(self).start < old(self).limit ==> r is Some && old(self).is_elem(r->Some_0, old(self).start as int) && old(self).moved(*final(self), old(self).start + 1, old(self).limit as int)
//@ entry
proof { if self.start < self.limit { self.lemma_elem(self.start as int); } }
//@ fn internal::vector_base::<Iter<'a,Block>asDoubleEndedIterator>::next_back
requires old(self).wf()
ensures final(self).wf(),
   old(self).start >= old(self).limit ==> r is None && *final(self) == *old(self),
   old(self).start < old(self).limit ==> r is Some && old(self).is_elem(r->Some_0, old(self).limit - 1) && old(self).moved(*final(self), old(self).start as int, old(self).limit - 1)
//@ entry
proof { if self.start < self.limit { self.lemma_elem(self.limit - 1); } }
//@ fn internal::vector_base::<Iter<'a,Block>asIterator>::size_hint
requires self.wf()
ensures r.0 == self.limit - self.start, r.1 == Some(r.0)
//@ fn internal::vector_base::<Iter<'a,Block>asIterator>::count
requires self.wf()
ensures r == self.limit - self.start
//@ fn internal::vector_base::<Iter<'a,Block>asExactSizeIterator>::len
requires self.wf()
ensures r == self.limit - self.start
//@ fn internal::vector_base::<Iter<'a,Block>asIterator>::last
requires self.wf()
ensures self.start >= self.limit ==> r is None, self.start < self.limit ==> r is Some && self.is_elem(r->Some_0, self.limit - 1)
//@ fn internal::vector_base::<Iter<'a,Block>asIterator>::nth
requires old(self).wf()
ensures final(self).wf(),
   old(self).start + n >= old(self).limit ==> r is None && old(self).moved(*final(self), old(self).limit as int, old(self).limit as int),
   old(self).start + n < old(self).limit ==> r is Some && old(self).is_elem(r->Some_0, old(self).start + n) && old(self).moved(*final(self), old(self).start + n + 1, old(self).limit as int)

// ---------------------------------------------------------------- comparing, hashing, cloning
//@ mod internal::vector_base
impl<Block: BlockType> VectorBase<Block> {
    /// the representation is unique: equal elements, equal blocks
    pub proof fn lemma_unique(a: Self, b: Self, eb: int)
        requires a.wf0(eb), b.wf0(eb), a.len == b.len, a.ebits(eb) == b.ebits(eb)
        ensures a.vec@ == b.vec@
    {
        a.lemma_wf(eb); b.lemma_wf(eb); let n = a.len * eb;
        assert forall|j: int| 0 <= j < a.vec@.len() * Block::nb() implies #[trigger] vbits(a.vec@)[j] == vbits(b.vec@)[j] by {
            if j < n { assert(a.ebits(eb)[j] == vbits(a.vec@)[j]); assert(b.ebits(eb)[j] == vbits(b.vec@)[j]); }
            else { assert(!vbits(a.vec@)[j]); assert(!vbits(b.vec@)[j]); } }
        lemma_blocks_ext(a.vec@, b.vec@);
    }
    /// what a vector feeds a hasher
    pub open spec fn hdata(self) -> Seq<Fed> { seq![Fed::Int(self.len), fed_vec(self.vec@)] }
    pub proof fn lemma_hdata(a: Self, b: Self)
        ensures a.hdata() == b.hdata() <==> a.len == b.len && a.vec@ == b.vec@
    {
        if a.hdata() == b.hdata() {
            assert(a.hdata()[0] == b.hdata()[0]); assert(a.hdata()[1] == b.hdata()[1]);
            let (x, y) = (a.vec@.map_values(|x: Block| bits_of(x)), b.vec@.map_values(|x: Block| bits_of(x)));
            assert(x == y); lemma_vbits(a.vec@); lemma_vbits(b.vec@); assert(x.len() == a.vec@.len() && y.len() == b.vec@.len());
            assert forall|i: int| 0 <= i < a.vec@.len() implies a.vec@[i] == b.vec@[i] by {
                assert(x[i] == bits_of(a.vec@[i]) && y[i] == bits_of(b.vec@[i]));
                assert forall|k: int| 0 <= k < Block::nb() implies a.vec@[i].bit(k) == b.vec@[i].bit(k) by { assert(bits_of(a.vec@[i])[k] == bits_of(b.vec@[i])[k]); }
                Block::law_ext(a.vec@[i], b.vec@[i]); }
            assert(a.vec@ =~= b.vec@);
        }
    }
}
//@ fn internal::vector_base::<VectorBase<Block>asPartialEq>::eq
ensures r == (self.len == other.len && self.vec@ == other.vec@)
//@ fn internal::vector_base::<VectorBase<Block>asHash>::hash
ensures final(state).fed() == old(state).fed() + self.hdata()
//@ exit
proof { assert(state.fed() =~= old(state).fed() + self.hdata()); }
//@ fn internal::vector_base::<VectorBase<Block>asClone>::clone
ensures r.len == self.len, r.vec@ == self.vec@
