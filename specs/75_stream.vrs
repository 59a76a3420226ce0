//@ include
internal::errors
stream::traits
stream::bit_buffer
stream
//@ use internal::errors
use crate::vxp::*;
use std::io::Result;
//@ use stream::traits
use crate::vxp::*;
use crate::num_traits::*;
use crate::internal::errors::*;
use std::io::Result;
use std::collections::VecDeque;
use vstd::std_specs::vecdeque::*;
use crate::int_vec::traits::low;
use crate::bit_vec::traits::lemma_test_bit0;
//@ use stream::bit_buffer
use crate::vxp::*;
use crate::num_traits::*;
use crate::bit_vec::traits::*;
use crate::bit_vec::bit_vector::BitVector;
use crate::storage::{Address, BlockType};
use crate::internal::errors::*;
use crate::stream::traits::*;
use crate::int_vec::traits::low;
use std::io::Result;
//@ mod internal::errors
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIoError(std::io::Error);
/// stands for std::io::Error::new with any kind and message
#[verifier::external_body]
pub fn vx_io_error() -> std::io::Error { panic!() }
//@ fn internal::errors::out_of_bits
ensures r is Err
//@ fn internal::errors::too_many_bits
ensures r is Err

//@ mod stream::traits
/// x is the first n bits of s, least significant first (those beyond its width dropped)
pub open spec fn le_bits<N: PrimInt>(x: N, s: Seq<bool>, n: int) -> bool { forall|i: int| #[trigger] x.bit(i) == (0 <= i < n && i < N::nb() && s[i]) }
/// x is the first n bits of s, most significant first (those beyond its width dropped)
pub open spec fn be_bits<N: PrimInt>(x: N, s: Seq<bool>, n: int) -> bool { forall|i: int| #[trigger] x.bit(i) == (0 <= i < n && i < N::nb() && s[n - 1 - i]) }
/// the low n bits of x, most significant first
pub open spec fn high_first<N: PrimInt>(x: N, n: nat) -> Seq<bool> { Seq::new(n, |i: int| x.bit(n - 1 - i)) }

//@ trait stream::traits::BitRead
    spec fn rwf(&self) -> bool;
    /// the source never reports an error
    spec fn reliable(&self) -> bool;
    /// the bits still to be read
    spec fn rem(&self) -> Seq<bool>;
    proof fn law_rem(&self) requires self.rwf() ensures self.rem().len() <= u64::MAX;
//@ fn stream::traits::BitRead::read_bit
requires old(self).rwf()
ensures final(self).rwf(), final(self).reliable() == old(self).reliable(), old(self).reliable() ==> r is Ok,
    r matches Ok(Some(b)) ==> old(self).rem().len() > 0 && b == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
    r matches Ok(None) ==> old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
//@ fn stream::traits::BitRead::read_int
requires old(self).rwf()
ensures final(self).rwf(), final(self).reliable() == old(self).reliable(),
    r matches Ok(Some(x)) ==> nbits <= old(self).rem().len() && final(self).rem() == old(self).rem().skip(nbits as int) && le_bits(x, old(self).rem(), nbits as int),
    r matches Ok(None) ==> nbits > 0 && old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
    r is Err && old(self).reliable() ==> 0 < old(self).rem().len() < nbits,
//@ entry
proof { N::laws(); N::law_nb(); assert(old(self).rem().skip(0) =~= old(self).rem()); }
//@ loop 0
invariant self.rwf(), self.reliable() == old(self).reliable(), vx_i0 <= vx_e0, vx_e0 == nbits, vx_i0 <= old(self).rem().len(), consumed == (vx_i0 > 0),
    self.rem() == old(self).rem().skip(vx_i0 as int), le_bits(result, old(self).rem(), vx_i0 as int),
    forall|i: int| #[trigger] mask.bit(i) == (i == vx_i0 && i < N::nb()),
decreases vx_e0 - vx_i0
//@ before read_bit 0
let ghost k = vx_i0 - 1;
proof { N::laws(); N::law_nb(); if k < old(self).rem().len() { assert(old(self).rem().skip(k).skip(1) =~= old(self).rem().skip(k + 1)); } }
//@ fn stream::traits::BitRead::read_int_be
requires old(self).rwf()
ensures final(self).rwf(), final(self).reliable() == old(self).reliable(),
    r matches Ok(Some(x)) ==> nbits <= old(self).rem().len() && final(self).rem() == old(self).rem().skip(nbits as int) && be_bits(x, old(self).rem(), nbits as int),
    r matches Ok(None) ==> nbits > 0 && old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
    r is Err && old(self).reliable() ==> 0 < old(self).rem().len() < nbits,
//@ entry
proof { N::laws(); N::law_nb(); assert(old(self).rem().skip(0) =~= old(self).rem()); }
//@ loop 0
invariant self.rwf(), self.reliable() == old(self).reliable(), vx_i0 <= vx_e0, vx_e0 == nbits, vx_i0 <= old(self).rem().len(), consumed == (vx_i0 > 0),
    self.rem() == old(self).rem().skip(vx_i0 as int), be_bits(result, old(self).rem(), vx_i0 as int),
decreases vx_e0 - vx_i0
//@ before read_bit 0
let ghost k = vx_i0 - 1;
proof { N::laws(); N::law_nb(); if k < old(self).rem().len() { assert(old(self).rem().skip(k).skip(1) =~= old(self).rem().skip(k + 1)); } }

//@ trait stream::traits::BitWrite
    spec fn wwf(&self) -> bool;
    /// the sink never reports an error
    spec fn sure(&self) -> bool;
    /// the bits written so far
    spec fn out(&self) -> Seq<bool>;
//@ fn stream::traits::BitWrite::write_bit
requires old(self).wwf()
ensures final(self).wwf(), final(self).sure() == old(self).sure(), old(self).sure() ==> r is Ok,
    r is Ok ==> final(self).out() == old(self).out().push(value),
//@ fn stream::traits::BitWrite::write_int
requires old(self).wwf(), nbits <= N::nb()
ensures final(self).wwf(), final(self).sure() == old(self).sure(), old(self).sure() ==> r is Ok,
    r is Ok ==> final(self).out() == old(self).out() + low(value, nbits as nat),
//@ entry
let ghost v0 = value;
proof { N::laws(); N::law_nb(); assert(old(self).out() + low(value, 0) =~= old(self).out()); }
//@ loop 0
invariant self.wwf(), self.sure() == old(self).sure(), vx_i0 <= vx_e0, vx_e0 == nbits, nbits <= N::nb(),
    self.out() == old(self).out() + low(v0, vx_i0 as nat), forall|i: int| i + vx_i0 < N::nb() ==> #[trigger] value.bit(i) == (i >= 0 && v0.bit(i + vx_i0)),
decreases vx_e0 - vx_i0
//@ before write_bit 0
let ghost k = vx_i0 - 1;
proof { N::laws(); N::law_nb(); lemma_test_bit0(value);
   assert((old(self).out() + low(v0, k as nat)).push(v0.bit(k)) =~= old(self).out() + low(v0, (k + 1) as nat)); }
//@ fn stream::traits::BitWrite::write_int_be
requires old(self).wwf(), nbits <= N::nb()
ensures final(self).wwf(), final(self).sure() == old(self).sure(), old(self).sure() ==> r is Ok,
    r is Ok ==> final(self).out() == old(self).out() + high_first(value, nbits as nat),
//@ entry
proof { N::laws(); N::law_nb(); assert(old(self).out() + high_first(value, nbits as nat).take(0) =~= old(self).out()); 
   assert(high_first(value, nbits as nat).take(nbits as int) =~= high_first(value, nbits as nat)); }
//@ loop 0
invariant self.wwf(), self.sure() == old(self).sure(), vx_i0 <= vx_e0, vx_e0 == nbits, nbits <= N::nb(),
    self.out() == old(self).out() + high_first(value, nbits as nat).take(vx_i0 as int), forall|i: int| #[trigger] mask.bit(i) == (i >= 0 && i == nbits - 1 - vx_i0),
decreases vx_e0 - vx_i0
//@ before write_bit 0
let ghost k = vx_i0 - 1;
proof { N::laws(); N::law_nb(); lemma_test_bit(value, mask, nbits - 1 - k);
   let h = high_first(value, nbits as nat);
   assert((old(self).out() + h.take(k)).push(value.bit(nbits - 1 - k)) =~= old(self).out() + h.take(k + 1)); }

//@ impl stream::traits::<VecDeque<bool>asBitRead>
    open spec fn rwf(&self) -> bool { self@.len() <= u64::MAX }
    open spec fn reliable(&self) -> bool { true }
    open spec fn rem(&self) -> Seq<bool> { self@ }
    proof fn law_rem(&self) {}
//@ impl stream::traits::<VecDeque<bool>asBitWrite>
    open spec fn wwf(&self) -> bool { true }
    open spec fn sure(&self) -> bool { true }
    open spec fn out(&self) -> Seq<bool> { self@ }
//@ witness stream::traits
//$ key WRead
/// Any user source.
pub struct WRead { pub v: Ghost<Seq<bool>>, pub sure: Ghost<bool> }
impl BitRead for WRead {
    open spec fn rwf(&self) -> bool { self.v@.len() <= u64::MAX }
    open spec fn reliable(&self) -> bool { self.sure@ }
    open spec fn rem(&self) -> Seq<bool> { self.v@ }
    proof fn law_rem(&self) {}
    #[verifier::external_body] fn read_bit(&mut self) -> (r: Result<Option<bool>>) { unimplemented!() }
//$ defaults BitRead except read_bit
}
//@ witness stream::traits
//$ key WWrite
/// Any user sink.
pub struct WWrite { pub v: Ghost<Seq<bool>>, pub ok: Ghost<bool> }
impl BitWrite for WWrite {
    open spec fn wwf(&self) -> bool { true }
    open spec fn sure(&self) -> bool { self.ok@ }
    open spec fn out(&self) -> Seq<bool> { self.v@ }
    #[verifier::external_body] fn write_bit(&mut self, value: bool) -> (r: Result<()>) { unimplemented!() }
//$ defaults BitWrite except write_bit
}

//@ mod stream::bit_buffer
impl<Inner: BitVec> BitBuffer<Inner> {
    pub open spec fn ok(&self) -> bool { self.data.wf() && self.pos <= self.data.bits().len() }
}
//@ impl stream::bit_buffer::<BitBuffer<Inner>asBitVec>
    open spec fn wf(&self) -> bool { self.data.wf() }
    open spec fn bits(&self) -> Seq<bool> { self.data.bits() }
    proof fn law_bits(&self) { self.data.law_bits(); }
//@ impl stream::bit_buffer::<BitBuffer<Inner>asBitVecMut>
    open spec fn frame(&self) -> (Seq<bool>, Seq<bool>, nat) { self.data.frame() }
//@ impl stream::bit_buffer::<BitBuffer<Inner>asBitRead>
    open spec fn rwf(&self) -> bool { self.ok() }
    open spec fn reliable(&self) -> bool { true }
    open spec fn rem(&self) -> Seq<bool> { self.data.bits().skip(self.pos as int) }
    proof fn law_rem(&self) { self.data.law_bits(); }
//@ impl stream::bit_buffer::<BitBuffer<Inner>asBitWrite>
    open spec fn wwf(&self) -> bool { self.ok() }
    open spec fn sure(&self) -> bool { true }
    open spec fn out(&self) -> Seq<bool> { self.data.bits().take(self.pos as int) }

//@ fn stream::bit_buffer::BitBuffer::new
ensures r.ok(), r.pos == 0, r.data.bits().len() == 0
//@ fn stream::bit_buffer::BitBuffer::with_capacity
ensures r.ok(), r.pos == 0, r.data.bits().len() == 0
//@ fn stream::bit_buffer::BitBuffer::from
requires input.wf()
ensures r.ok(), r.pos == 0, r.data == input
//@ fn stream::bit_buffer::BitBuffer::append
requires vec.wf()
ensures r.ok(), r.pos == vec.bits().len(), r.data == vec
//@ fn stream::bit_buffer::BitBuffer::seek
requires old(self).ok()
ensures final(self).ok(), final(self).data == old(self).data, r is Ok <==> position <= old(self).data.bits().len(),
    final(self).pos == (if position <= old(self).data.bits().len() { position } else { old(self).pos })
//@ fn stream::bit_buffer::BitBuffer::into_inner
ensures r == self.data
//@ fn stream::bit_buffer::BitBuffer::inner
ensures *r == self.data
//@ fn stream::bit_buffer::BitBuffer::position
ensures r == self.pos
//@ fn stream::bit_buffer::<BitBuffer<Inner>asBitRead>::read_bit
ensures final(self).data == old(self).data, r is Ok,
    old(self).pos < old(self).data.bits().len() ==> r->Ok_0 == Some(old(self).data.bits()[old(self).pos as int]) && final(self).pos == old(self).pos + 1,
    old(self).pos >= old(self).data.bits().len() ==> r->Ok_0 is None && final(self).pos == old(self).pos,
//@ entry
proof { self.data.law_bits(); }
//@ exit
proof { if old(self).pos < old(self).data.bits().len() { assert(old(self).data.bits().skip(old(self).pos as int).skip(1) =~= old(self).data.bits().skip(old(self).pos + 1)); } }
//@ fn stream::bit_buffer::<BitBuffer<Inner>asBitWrite>::write_bit
ensures final(self).pos == old(self).pos + 1, r is Ok,
    final(self).data.bits() == (if old(self).pos < old(self).data.bits().len() { old(self).data.bits().update(old(self).pos as int, value) } else { old(self).data.bits().push(value) }),
//@ loop 0
invariant self.ok(), self.pos == old(self).pos, old(self).ok(),
    self.data.bits() == old(self).data.bits() || (old(self).pos == old(self).data.bits().len() && self.data.bits() == old(self).data.bits().push(false)),
decreases self.pos + 1 - self.data.bits().len()
//@ before push_bit 0
proof { self.data.law_one_more(); }
//@ exit
proof { self.data.law_bits(); let b0 = old(self).data.bits(); let p = old(self).pos as int;
  assert(final(self).data.bits() =~= (if p < b0.len() { b0.update(p, value) } else { b0.push(value) }));
  assert(final(self).data.bits().take(p + 1) =~= b0.take(p).push(value)); }
//@ fn stream::bit_buffer::<BitBuffer<Inner>asBitVecMut>::set_block
//@ refuse before set_block 0
position < cdiv(self.data.bits().len() as int, Self::Block::nb() as int)
