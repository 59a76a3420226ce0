//@ include
coding::traits
coding::unary
coding::elias
coding::trans
coding::fib
coding::comma
coding
//@ use coding::traits
use crate::vxp::*;
use crate::num_traits::*;
use crate::stream::traits::*;
use std::io::Result;
//@ use coding::unary
use crate::vxp::*;
use crate::num_traits::*;
use crate::internal::errors::*;
use crate::stream::traits::*;
use crate::coding::traits::*;
use std::io::Result;
//@ use coding::elias
use crate::vxp::*;
use crate::num_traits::*;
use crate::internal::errors::*;
use crate::stream::traits::*;
use crate::coding::traits::*;
use std::io::Result;
use crate::coding::unary::*;
use crate::coding::trans::*;
use crate::int_vec::traits::low;
use vstd::std_specs::bits::*;
//@ use coding::fib
use crate::vxp::*;
use crate::num_traits::*;
use crate::internal::errors::*;
use crate::stream::traits::*;
use crate::coding::traits::*;
use std::io::Result;
use std::mem;
//@ use coding::comma
use crate::vxp::*;
use crate::num_traits::*;
use crate::internal::errors::*;
use crate::stream::traits::*;
use crate::coding::traits::*;
use crate::int_vec::traits::low;
use std::io::Result;
//@ use coding::trans
use crate::vxp::*;
use crate::num_traits::*;
use crate::internal::errors::*;
use crate::stream::traits::*;
use crate::coding::traits::*;
use std::io::Result;
//@ mod coding::traits
/// What a sequence of bits means to a code: nothing left, not a code (cut short, or too big), or a value and its length.
pub enum Dec { Eof, Bad, Val(u64, nat) }
/// the codes of the values vs, one after the other
pub open spec fn codes<C: UniversalCode>(c: &C, vs: Seq<u64>) -> Seq<bool> decreases vs.len()
{ if vs.len() == 0 { Seq::empty() } else { c.code(vs[0]) + codes(c, vs.skip(1)) } }
/// reading n values from s, each where the one before stopped
pub open spec fn reads<C: UniversalCode>(c: &C, s: Seq<bool>, vs: Seq<u64>) -> bool decreases vs.len()
{ if vs.len() == 0 { c.dec(s) == Dec::Eof }
  else { c.dec(s) matches Dec::Val(v, n) && v == vs[0] && n <= s.len() && reads(c, s.skip(n as int), vs.skip(1)) } }
/// a concatenation of codes decodes to the same values, and then to a clean end
pub proof fn theorem_concatenation<C: UniversalCode>(c: &C, vs: Seq<u64>)
  requires c.cfg_ok(), forall|i: int| 0 <= i < vs.len() ==> #[trigger] c.code_ok(vs[i])
  ensures reads(c, codes(c, vs), vs)
  decreases vs.len()
{
  if vs.len() == 0 { c.lemma_eof(Seq::empty()); assert(codes(c, vs) =~= Seq::<bool>::empty()); }
  else {
    let t = codes(c, vs.skip(1));
    assert forall|i: int| 0 <= i < vs.skip(1).len() implies #[trigger] c.code_ok(vs.skip(1)[i]) by { assert(c.code_ok(vs[i + 1])); }
    theorem_concatenation(c, vs.skip(1));
    c.lemma_roundtrip(vs[0], t);
    assert(c.code_ok(vs[0]));
    assert((c.code(vs[0]) + t).skip(c.code(vs[0]).len() as int) =~= t);
  }
}
//@ trait coding::traits::UniversalCode
    /// the parameters of the code are in their documented range
    spec fn cfg_ok(&self) -> bool;
    /// encoding v returns (with a result or an error)
    spec fn takes(&self, v: u64) -> bool;
    /// the code can represent v
    spec fn code_ok(&self, v: u64) -> bool;
    spec fn code(&self, v: u64) -> Seq<bool>;
    spec fn dec(&self, s: Seq<bool>) -> Dec;
    /// code words decode to their value and length, whatever follows
    proof fn lemma_roundtrip(&self, v: u64, t: Seq<bool>)
        requires self.cfg_ok(), self.code_ok(v)
        ensures self.takes(v), self.code(v).len() > 0, self.dec(self.code(v) + t) == Dec::Val(v, self.code(v).len());
    /// only the empty sequence is a clean end, and a value is read from within the sequence
    proof fn lemma_eof(&self, s: Seq<bool>)
        requires self.cfg_ok()
        ensures self.dec(s) is Eof <==> s.len() == 0, self.dec(s) matches Dec::Val(v, n) ==> 0 < n <= s.len();
//@ fn coding::traits::UniversalCode::encode
requires old(sink).wwf(), self.cfg_ok(), panics_allowed() || self.takes(value)
ensures self.takes(value), final(sink).wwf(), final(sink).sure() == old(sink).sure(),
    r is Ok ==> self.code_ok(value) && final(sink).out() == old(sink).out() + self.code(value),
    old(sink).sure() && self.code_ok(value) ==> r is Ok,
//@ fn coding::traits::UniversalCode::decode
requires old(source).rwf(), self.cfg_ok()
ensures final(source).rwf(), final(source).reliable() == old(source).reliable(),
    r matches Ok(Some(v)) ==> (self.dec(old(source).rem()) matches Dec::Val(w, n) && w == v && 0 < n <= old(source).rem().len() && final(source).rem() == old(source).rem().skip(n as int)),
    r matches Ok(None) ==> self.dec(old(source).rem()) == Dec::Eof && old(source).rem().len() == 0 && final(source).rem() == old(source).rem(),
    r is Err && old(source).reliable() ==> self.dec(old(source).rem()) == Dec::Bad,

//@ mod coding::unary
/// v zeros
pub open spec fn zeros(v: nat) -> Seq<bool> { Seq::new(v, |i: int| false) }
pub open spec fn udec(s: Seq<bool>, i: nat) -> Dec decreases s.len() - i
{ if i >= s.len() { Dec::Bad } else if s[i as int] { Dec::Val(i as u64, i + 1) } else { udec(s, i + 1) } }
pub proof fn lemma_udec(s: Seq<bool>, i: nat, v: nat)
  requires i <= v < s.len(), v <= u64::MAX, s[v as int], forall|j: int| i <= j < v ==> !#[trigger] s[j]
  ensures udec(s, i) == Dec::Val(v as u64, v + 1)
  decreases v - i
{ if i < v { assert(!s[i as int]); lemma_udec(s, i + 1, v); } }
pub proof fn lemma_udec_len(s: Seq<bool>, i: nat)
  ensures !(udec(s, i) is Eof), udec(s, i) matches Dec::Val(v, n) ==> 0 < n <= s.len()
  decreases s.len() - i
{ if i < s.len() && !s[i as int] { lemma_udec_len(s, i + 1); } }
//@ impl coding::unary::<UnaryasUniversalCode>
    open spec fn cfg_ok(&self) -> bool { true }
    open spec fn takes(&self, v: u64) -> bool { true }
    open spec fn code_ok(&self, v: u64) -> bool { true }
    open spec fn code(&self, v: u64) -> Seq<bool> { zeros(v as nat).push(true) }
    open spec fn dec(&self, s: Seq<bool>) -> Dec { if s.len() == 0 { Dec::Eof } else { udec(s, 0) } }
    proof fn lemma_roundtrip(&self, v: u64, t: Seq<bool>) { lemma_udec(self.code(v) + t, 0, v as nat); }
    proof fn lemma_eof(&self, s: Seq<bool>) { lemma_udec_len(s, 0); }
//@ fn coding::unary::<UnaryasUniversalCode>::encode
//@ entry
let ghost v0 = value;
proof { assert(sink.out() =~= old(sink).out() + zeros(0)); }
//@ loop 0
invariant value <= v0, sink.wwf(), sink.sure() == old(sink).sure(), sink.out() == old(sink).out() + zeros((v0 - value) as nat),
decreases value
//@ after write_bit 0
proof { assert((old(sink).out() + zeros((v0 - value) as nat)).push(false) =~= old(sink).out() + zeros((v0 - value + 1) as nat)); }
//@ after write_bit 1
proof { assert((old(sink).out() + zeros(v0 as nat)).push(true) =~= old(sink).out() + zeros(v0 as nat).push(true)); }
//@ fn coding::unary::<UnaryasUniversalCode>::decode
//@ entry
let ghost s = source.rem();
proof { source.law_rem(); assert(s.skip(0) =~= s); }
//@ loop 0
invariant source.rwf(), source.reliable() == old(source).reliable(), s == old(source).rem(), s.len() <= u64::MAX,
   result <= s.len(), source.rem() == s.skip(result as int), consumed == (result > 0), udec(s, 0) == udec(s, result as nat),
ensures result == s.len()
decreases s.len() - result
//@ before read_bit 0
proof { if result < s.len() { assert(s.skip(result as int).skip(1) =~= s.skip(result + 1)); } }

//@ mod coding::elias
/// the position of the highest bit set
pub open spec fn top(v: u64) -> u64 { (63 - u64_leading_zeros(v)) as u64 }
/// x has exactly the low n bits of s (least significant first) and bit n above them
pub open spec fn topped(x: u64, s: Seq<bool>, n: int) -> bool { forall|i: int| #[trigger] x.bit(i) == (i == n || (0 <= i < n && s[i])) }
pub open spec fn topped_val(s: Seq<bool>, n: int) -> u64 { choose|x: u64| topped(x, s, n) }
pub proof fn lemma_topped(x: u64, s: Seq<bool>, n: int)
  requires topped(x, s, n)
  ensures x == topped_val(s, n)
{ let y = topped_val(s, n); assert(topped(y, s, n)); assert forall|i: int| 0 <= i < 64 implies x.bit(i) == y.bit(i) by {} u64::law_ext(x, y); }
pub proof fn lemma_top(v: u64)
  requires v != 0
  ensures 0 <= top(v) < 64, u64_leading_zeros(v) <= 63, v.bit(top(v) as int), forall|i: int| i > top(v) ==> !#[trigger] v.bit(i),
    topped(v, low(v, top(v) as nat), top(v) as int)
{
  axiom_u64_leading_zeros(v);
  let t = top(v);
  assert forall|i: int| i > t implies !#[trigger] v.bit(i) by { if i < 64 { let j = i as u64; assert((v >> j) & 1 == 0); } }
  assert((v >> t) & 1 == 0 || (v >> t) & 1 == 1) by (bit_vector);
  assert((v >> t) & 1 != 0);
}
//@ impl coding::elias::<Elias<Header>asUniversalCode>
    open spec fn cfg_ok(&self) -> bool { self.0.cfg_ok() }
    open spec fn takes(&self, v: u64) -> bool { v != 0 && self.0.takes(top(v)) }
    open spec fn code_ok(&self, v: u64) -> bool { v != 0 && self.0.code_ok(top(v)) }
    open spec fn code(&self, v: u64) -> Seq<bool> { self.0.code(top(v)) + low(v, top(v) as nat) }
    open spec fn dec(&self, s: Seq<bool>) -> Dec {
      match self.0.dec(s) {
        Dec::Eof => Dec::Eof,
        Dec::Bad => Dec::Bad,
        Dec::Val(nb, n) => if nb > 63 || s.len() < n + nb { Dec::Bad } else { Dec::Val(topped_val(s.skip(n as int), nb as int), n + nb as nat) },
      }
    }
    proof fn lemma_roundtrip(&self, v: u64, t: Seq<bool>) {
      lemma_top(v); let nb = top(v); let h = self.0.code(nb); let l = low(v, nb as nat);
      self.0.lemma_roundtrip(nb, l + t);
      assert(h + (l + t) =~= self.code(v) + t);
      let s = self.code(v) + t;
      assert(s.skip(h.len() as int) =~= l + t);
      assert(topped(v, s.skip(h.len() as int), nb as int));
      lemma_topped(v, s.skip(h.len() as int), nb as int);
    }
    proof fn lemma_eof(&self, s: Seq<bool>) { self.0.lemma_eof(s); }
//@ fn coding::elias::<Elias<Header>asUniversalCode>::encode
//@ before leading_zeros 0
proof { lemma_top(value); u64::law_nb(); }
//@ exit
proof { if self.0.code_ok(top(value)) { self.0.lemma_roundtrip(top(value), Seq::empty()); } 
  assert(old(sink).out() + self.0.code(top(value)) + low(value, top(value) as nat) =~= old(sink).out() + self.code(value)); }
//@ fn coding::elias::<Elias<Header>asUniversalCode>::decode
//@ entry
let ghost s = source.rem();
proof { self.0.lemma_eof(s); u64::laws(); u64::law_nb(); }
//@ before Some 0
proof {
  let s1 = s.skip(s.len() - (source.rem().len() + nbits)); let n = nbits as int;
  lemma_with_top(low_bits, nbits, s1);
  lemma_topped(low_bits | (1u64 << nbits), s1, n);
  assert(s1.skip(n) =~= s.skip(s.len() - source.rem().len()));
}
//@ mod coding::elias
pub proof fn lemma_with_top(x: u64, n: u64, s: Seq<bool>)
  requires n < 64, le_bits(x, s, n as int)
  ensures topped(x | (1u64 << n), s, n as int)
{
  let y = x | (1u64 << n);
  assert forall|i: int| #[trigger] y.bit(i) == (i == n || (0 <= i < n && s[i])) by {
    assert(x.bit(i) == (0 <= i < n && s[i]));
    if 0 <= i < 64 { let j = i as u64;
      assert(n < 64 && j < 64 ==> (((x | (1u64 << n)) >> j) & 1 == 1 <==> ((x >> j) & 1 == 1 || j == n))) by (bit_vector); }
  }
}
/// the groups of the omega code of v, without the closing 0
pub open spec fn groups(v: u64) -> Seq<bool> decreases v via groups_down
{ if v <= 1 { Seq::empty() } else { groups(top(v)) + high_first(v, (top(v) + 1) as nat) } }
#[via_fn] proof fn groups_down(v: u64) { if v > 1 { lemma_top(v); lemma_top_less(v); } }
pub proof fn lemma_top_less(v: u64)
  requires v > 1
  ensures 1 <= top(v) < v
{
  lemma_top(v); let t = top(v);
  assert(t < 64 && v > 1 && (v >> t) & 1 == 1 && t > 0 ==> t < v) by (bit_vector);
  if t == 0 { assert forall|i: int| 0 <= i < 64 implies v.bit(i) == 1u64.bit(i) by { lemma_one_bits(i); } u64::law_ext(v, 1u64); }
}
pub proof fn lemma_one_bits(i: int) requires 0 <= i < 64 ensures 1u64.bit(i) == (i == 0)
{ let j = i as u64; assert(j < 64 ==> ((1u64 >> j) & 1 == 1 <==> j == 0)) by (bit_vector); }
/// x has exactly the first n bits of s (most significant first) and bit n above them
pub open spec fn be_topped(x: u64, s: Seq<bool>, n: int) -> bool { forall|i: int| #[trigger] x.bit(i) == (i == n || (0 <= i < n && s[n - 1 - i])) }
pub open spec fn be_topped_val(s: Seq<bool>, n: int) -> u64 { choose|x: u64| be_topped(x, s, n) }
pub proof fn lemma_be_topped(x: u64, s: Seq<bool>, n: int)
  requires be_topped(x, s, n)
  ensures x == be_topped_val(s, n)
{ let y = be_topped_val(s, n); assert(be_topped(y, s, n)); assert forall|i: int| 0 <= i < 64 implies x.bit(i) == y.bit(i) by {} u64::law_ext(x, y); }
pub open spec fn odec(s: Seq<bool>, pos: nat, result: u64) -> Dec decreases s.len() - pos
{
  if pos >= s.len() { Dec::Bad }
  else if !s[pos as int] { Dec::Val(result, pos + 1) }
  else if result > 63 || pos + 1 + result > s.len() { Dec::Bad }
  else { odec(s, pos + 1 + result as nat, be_topped_val(s.skip(pos as int + 1), result as int)) }
}
pub proof fn lemma_odec_len(s: Seq<bool>, pos: nat, result: u64)
  ensures !(odec(s, pos, result) is Eof), odec(s, pos, result) matches Dec::Val(v, n) ==> 0 < n <= s.len()
  decreases s.len() - pos
{ if pos < s.len() && s[pos as int] && result <= 63 && pos + 1 + result <= s.len() { lemma_odec_len(s, pos + 1 + result as nat, be_topped_val(s.skip(pos as int + 1), result as int)); } }
pub proof fn lemma_groups(v: u64, t: Seq<bool>)
  requires v != 0
  ensures odec(groups(v) + t, 0, 1) == odec(groups(v) + t, groups(v).len(), v)
  decreases v
{
  if v > 1 {
    lemma_top(v); lemma_top_less(v);
    let n = top(v); let g = groups(n); let h = high_first(v, (n + 1) as nat); let s = groups(v) + t;
    lemma_groups(n, h + t);
    assert(g + (h + t) =~= s);
    let p = g.len() as int;
    assert(s[p] == v.bit(n as int));
    assert(be_topped(v, s.skip(p + 1), n as int)) by {
      assert forall|i: int| #[trigger] v.bit(i) == (i == n || (0 <= i < n && s.skip(p + 1)[n - 1 - i])) by {
        if 0 <= i < n { assert(s.skip(p + 1)[n - 1 - i] == s[p + 1 + n - 1 - i]); assert(s[p + n - i] == h[n - i]); }
      }
    }
    lemma_be_topped(v, s.skip(p + 1), n as int);
    assert(groups(v).len() == p + 1 + n);
  }
}
/// what remains to be written: the pending groups, the last first
pub open spec fn flat(st: Seq<(usize, u64)>) -> Seq<bool> decreases st.len()
{ if st.len() == 0 { Seq::empty() } else { high_first(st.last().1, st.last().0 as nat) + flat(st.drop_last()) } }
pub proof fn lemma_be_with_top(x: u64, n: u64, s: Seq<bool>)
  requires n < 64, be_bits(x, s, n as int)
  ensures be_topped(x | (1u64 << n), s, n as int), (1u64 << (n as u32)) == (1u64 << n)
{
  let y = x | (1u64 << n); let m = n as u32;
  assert(n < 64 && m == n ==> (1u64 << m) == (1u64 << n)) by (bit_vector);
  assert forall|i: int| #[trigger] y.bit(i) == (i == n || (0 <= i < n && s[n - 1 - i])) by {
    assert(x.bit(i) == (0 <= i < n && s[n - 1 - i]));
    if 0 <= i < 64 { let j = i as u64;
      assert(n < 64 && j < 64 ==> (((x | (1u64 << n)) >> j) & 1 == 1 <==> ((x >> j) & 1 == 1 || j == n))) by (bit_vector); }
  }
}
//@ impl coding::elias::<OmegaasUniversalCode>
    open spec fn cfg_ok(&self) -> bool { true }
    open spec fn takes(&self, v: u64) -> bool { v != 0 }
    open spec fn code_ok(&self, v: u64) -> bool { v != 0 }
    open spec fn code(&self, v: u64) -> Seq<bool> { groups(v).push(false) }
    open spec fn dec(&self, s: Seq<bool>) -> Dec { if s.len() == 0 { Dec::Eof } else { odec(s, 0, 1) } }
    proof fn lemma_roundtrip(&self, v: u64, t: Seq<bool>) {
      let f = seq![false] + t;
      lemma_groups(v, f);
      assert(self.code(v) + t =~= groups(v) + f);
    }
    proof fn lemma_eof(&self, s: Seq<bool>) { lemma_odec_len(s, 0, 1); }
//@ fn coding::elias::<OmegaasUniversalCode>::encode
//@ attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ entry
let ghost v0 = value;
proof { u64::law_nb(); }
//@ pre 0
proof { assert(groups(v0) + flat(stack@) =~= groups(v0)); }
//@ loop 0
invariant value >= 1, groups(value) + flat(stack@) == groups(v0), forall|j: int| 0 <= j < stack@.len() ==> (#[trigger] stack@[j]).0 <= 64,
  *sink == *old(sink),
decreases value
//@ before leading_zeros 0
let ghost st = stack@; let ghost v1 = value;
proof { lemma_top(value); lemma_top_less(value); }
//@ loopend 0
proof {
  assert(stack@.drop_last() =~= st);
  assert(stack@.last() == ((top(v1) + 1) as usize, v1));
  assert(groups(value) + flat(stack@) =~= (groups(top(v1)) + high_first(v1, (top(v1) + 1) as nat)) + flat(st));
}
//@ pre 1
proof { assert(groups(value) =~= Seq::<bool>::empty()); assert(flat(stack@) =~= groups(v0)); }
//@ loop 1
invariant u64::nb() == 64, sink.wwf(), sink.sure() == old(sink).sure(), sink.out() + flat(stack@) == old(sink).out() + groups(v0),
  forall|j: int| 0 <= j < stack@.len() ==> (#[trigger] stack@[j]).0 <= 64,
ensures sink.out() + Seq::<bool>::empty() == old(sink).out() + groups(v0),
decreases stack@.len()
//@ before write_int_be 0
let ghost o = sink.out();
proof { assert((o + high_first(value, nbits as nat)) + flat(stack@) =~= o + (high_first(value, nbits as nat) + flat(stack@))); }
//@ after pop 0
proof { assert(sink.out() + Seq::<bool>::empty() =~= sink.out()); }
//@ after write_bit 0
proof { assert((old(sink).out() + groups(v0)).push(false) =~= old(sink).out() + groups(v0).push(false)); }
//@ fn coding::elias::<OmegaasUniversalCode>::decode
//@ entry
let ghost s = source.rem(); let ghost mut pos = 0nat;
proof { u64::laws(); u64::law_nb(); assert(s.skip(0) =~= s); lemma_odec_len(s, 0, 1); }
//@ loop 0
invariant source.rwf(), source.reliable() == old(source).reliable(), s == old(source).rem(), pos <= s.len(), source.rem() == s.skip(pos as int),
  result >= 1, result == 1 <==> pos == 0, odec(s, 0, 1) == odec(s, pos, result),
decreases s.len() - pos
//@ before read_bit 0
let ghost res = result;
proof { if pos < s.len() { assert(s.skip(pos as int).skip(1) =~= s.skip(pos as int + 1)); } }
//@ before read_int_be 0
proof {
  assert forall|x: u64| #[trigger] be_bits(x, s.skip(pos as int + 1), res as int) implies (x | (1u64 << (res as u32))) == be_topped_val(s.skip(pos as int + 1), res as int)
    && (x | (1u64 << (res as u32))) >= 2 && ((1u64 << (res as u32)) | x) == (x | (1u64 << (res as u32))) by {
    assert(((1u64 << (res as u32)) | x) == (x | (1u64 << (res as u32)))) by (bit_vector);
    lemma_be_with_top(x, res, s.skip(pos as int + 1)); lemma_be_topped(x | (1u64 << res), s.skip(pos as int + 1), res as int);
    assert(1 <= res < 64 ==> (x | (1u64 << (res as u32))) >= 2) by (bit_vector);
  }
  if pos + 1 + res <= s.len() { assert(s.skip(pos as int + 1).skip(res as int) =~= s.skip(pos as int + 1 + res)); } }
//@ loopend 0
proof { pos = pos + 1 + res as nat; }
//@ impl coding::trans::<Lift0<Code>asUniversalCode>
    open spec fn cfg_ok(&self) -> bool { self.0.cfg_ok() }
    open spec fn takes(&self, v: u64) -> bool { v < u64::MAX ==> self.0.takes((v + 1) as u64) }
    open spec fn code_ok(&self, v: u64) -> bool { v < u64::MAX && self.0.code_ok((v + 1) as u64) }
    open spec fn code(&self, v: u64) -> Seq<bool> { self.0.code((v + 1) as u64) }
    open spec fn dec(&self, s: Seq<bool>) -> Dec {
      match self.0.dec(s) {
        Dec::Val(v, n) => if v == 0 { Dec::Bad } else { Dec::Val((v - 1) as u64, n) },
        d => d,
      }
    }
    proof fn lemma_roundtrip(&self, v: u64, t: Seq<bool>) { self.0.lemma_roundtrip((v + 1) as u64, t); }
    proof fn lemma_eof(&self, s: Seq<bool>) { self.0.lemma_eof(s); }
//@ fn coding::trans::<Lift0<Code>asUniversalCode>::encode
//@ fn coding::trans::<Lift0<Code>asUniversalCode>::decode

//@ mod coding::elias
/// gamma and delta encode every positive value; with a lift, 0 too
pub proof fn theorem_accepts(g: Gamma, d: Delta, v: u64)
  requires v != 0
  ensures g.cfg_ok(), g.code_ok(v), d.cfg_ok(), d.code_ok(v), v < u64::MAX ==> Lift0(g).code_ok(v) && Lift0(d).code_ok(v), Lift0(g).code_ok(0), Lift0(d).code_ok(0)
{ lemma_top(v); if v < u64::MAX { lemma_top((v + 1) as u64); } lemma_top(1u64); }

//@ mod coding::fib
/// (F(n), F(n + 1))
pub open spec fn fibp(n: nat) -> (nat, nat) decreases n
{ if n == 0 { (0, 1) } else { let p = fibp((n - 1) as nat); (p.1, p.0 + p.1) } }
/// the n-th Fibonacci number
pub open spec fn fb(n: nat) -> nat { fibp(n).0 }
pub open spec fn max_fib() -> u64 { 12200160415121876738 }
pub proof fn lemma_fb(n: nat) ensures fibp(n).1 == fb(n + 1), fb(n + 2) == fb(n) + fb(n + 1), n >= 1 ==> fb(n) >= 1, fb(0) == 0, fb(1) == 1, fb(2) == 1, fb(3) == 2
  decreases n
{ if n > 0 { lemma_fb((n - 1) as nat); } assert(fibp(0) == (0nat, 1nat)); assert(fibp(1) == (1nat, 1nat)); assert(fibp(2) == (1nat, 2nat)); assert(fibp(3) == (2nat, 3nat)); }
pub proof fn lemma_fb_mono(m: nat, n: nat) requires m <= n ensures fb(m) <= fb(n) decreases n - m
{ if m < n { lemma_fb_mono(m, (n - 1) as nat); if n >= 2 { lemma_fb((n - 2) as nat); } else { lemma_fb(0); } } }
pub proof fn lemma_fb_93() ensures fb(93) == max_fib(), fb(94) > u64::MAX
{ assert(fibp(93).0 == 12200160415121876738 && fibp(94).0 > 0xffff_ffff_ffff_ffff) by (compute); }
/// v as a sum of distinct Fibonacci numbers F(2) ... F(m), greedily, least first
pub open spec fn zeck(v: nat, m: nat) -> Seq<bool> decreases m
{ if m < 2 { Seq::empty() } else if fb(m) <= v { zeck((v - fb(m)) as nat, (m - 1) as nat).push(true) } else { zeck(v, (m - 1) as nat).push(false) } }
pub open spec fn is_top(v: nat, n: nat) -> bool { n >= 2 && fb(n) <= v < fb(n + 1) }
pub open spec fn ftop(v: nat) -> nat { choose|n: nat| is_top(v, n) }
pub proof fn lemma_is_top(v: nat, n: nat) requires is_top(v, n) ensures ftop(v) == n
{ let k = ftop(v); assert(is_top(v, k)); if k < n { lemma_fb_mono(k + 1, n); } if n < k { lemma_fb_mono(n + 1, k); } }
pub proof fn lemma_top_exists(v: nat, n: nat) requires v >= 1, n >= 1, v < fb(n + 1) ensures is_top(v, ftop(v)), ftop(v) <= n decreases n
{ lemma_fb(0); if n == 1 { } else if fb(n) <= v { assert(is_top(v, n)); lemma_is_top(v, n); } else { lemma_top_exists(v, (n - 1) as nat); } }
pub open spec fn wsum(s: Seq<bool>, j: nat) -> nat decreases j
{ if j == 0 { 0 } else { wsum(s, (j - 1) as nat) + if s[j - 1] { fb(j + 1) } else { 0 } } }
pub proof fn lemma_wsum_same(s: Seq<bool>, t: Seq<bool>, j: nat) requires j <= s.len(), j <= t.len(), forall|i: int| 0 <= i < j ==> s[i] == t[i] ensures wsum(s, j) == wsum(t, j) decreases j
{ if j > 0 { lemma_wsum_same(s, t, (j - 1) as nat); } }
pub open spec fn sparse(s: Seq<bool>, n: int) -> bool { forall|i: int| 0 < i < n ==> !(#[trigger] s[i] && s[i - 1]) }
pub proof fn lemma_zeck(v: nat, m: nat)
  requires m >= 1, v < fb(m + 1)
  ensures zeck(v, m).len() == m - 1, wsum(zeck(v, m), (m - 1) as nat) == v, sparse(zeck(v, m), m - 1), m >= 2 ==> (zeck(v, m)[m - 2] <==> fb(m) <= v)
  decreases m
{
  lemma_fb((m - 1) as nat);
  if m >= 2 {
    let v1 = if fb(m) <= v { (v - fb(m)) as nat } else { v }; let z = zeck(v1, (m - 1) as nat); let y = zeck(v, m);
    lemma_zeck(v1, (m - 1) as nat);
    lemma_wsum_same(z, y, (m - 2) as nat);
    assert(sparse(y, m - 1)) by {
      assert forall|i: int| 0 < i < m - 1 implies !(#[trigger] y[i] && y[i - 1]) by {
        if i < m - 2 { assert(!(z[i] && z[i - 1])); }
        else { lemma_fb((m - 2) as nat); if fb(m) <= v { assert(v1 < fb((m - 1) as nat)); assert(!z[m - 3]); } }
      }
    }
  }
}
pub open spec fn fdec(s: Seq<bool>, j: nat, acc: nat, prev: bool) -> Dec decreases s.len() - j
{
  if j >= s.len() { Dec::Bad }
  else if s[j as int] && prev { Dec::Val(acc as u64, j + 1) }
  else {
    let acc1 = acc + if s[j as int] { fb(j + 2) } else { 0 };
    if acc1 > u64::MAX || fb(j + 3) > u64::MAX { Dec::Bad } else { fdec(s, j + 1, acc1, s[j as int]) }
  }
}
pub proof fn lemma_fdec_len(s: Seq<bool>, j: nat, acc: nat, prev: bool)
  ensures !(fdec(s, j, acc, prev) is Eof), fdec(s, j, acc, prev) matches Dec::Val(v, n) ==> 0 < n <= s.len()
  decreases s.len() - j
{ if j < s.len() { lemma_fdec_len(s, j + 1, acc + if s[j as int] { fb(j + 2) } else { 0 }, s[j as int]); } }
/// reading on from bit j, all of whose sums are right so far, gives v
pub proof fn lemma_fdec(s: Seq<bool>, j: nat, n: nat, v: nat)
  requires n >= 2, s.len() >= n, j < n, s[n - 1], s[n - 2], sparse(s, n - 1), wsum(s, (n - 1) as nat) == v, v <= u64::MAX, fb(n + 1) <= u64::MAX
  ensures fdec(s, j, wsum(s, j), j > 0 && s[j - 1]) == Dec::Val(v as u64, n)
  decreases n - j
{
  if j < n - 1 { lemma_fdec(s, j + 1, n, v); lemma_fb_mono(j + 3, n + 1); lemma_wsum_mono(s, j + 1, (n - 1) as nat); }
}
pub proof fn lemma_wsum_mono(s: Seq<bool>, i: nat, j: nat) requires i <= j ensures wsum(s, i) <= wsum(s, j) decreases j - i
{ if i < j { lemma_wsum_mono(s, i, (j - 1) as nat); } }
pub open spec fn rev(s: Seq<bool>) -> Seq<bool> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
//@ impl coding::fib::<FibonacciasUniversalCode>
    open spec fn cfg_ok(&self) -> bool { true }
    open spec fn takes(&self, v: u64) -> bool { v != 0 }
    open spec fn code_ok(&self, v: u64) -> bool { v != 0 && v < max_fib() }
    open spec fn code(&self, v: u64) -> Seq<bool> { zeck(v as nat, ftop(v as nat)).push(true) }
    open spec fn dec(&self, s: Seq<bool>) -> Dec { if s.len() == 0 { Dec::Eof } else { fdec(s, 0, 0, false) } }
    proof fn lemma_roundtrip(&self, v: u64, t: Seq<bool>) {
      lemma_fb_93(); lemma_top_exists(v as nat, 92);
      let n = ftop(v as nat); lemma_zeck(v as nat, n); lemma_fb_mono(n + 1, 93);
      let z = zeck(v as nat, n); let s = self.code(v) + t;
      lemma_wsum_same(z, s, (n - 1) as nat);
      assert(sparse(s, n - 1)) by { assert forall|i: int| 0 < i < n - 1 implies !(#[trigger] s[i] && s[i - 1]) by { assert(!(z[i] && z[i - 1])); } }
      lemma_fdec(s, 0, n, v as nat);
    }
    proof fn lemma_eof(&self, s: Seq<bool>) { lemma_fdec_len(s, 0, 0, false); }
//@ fn coding::fib::Fib::new
ensures r.i_1 == 1, r.i == 1
//@ fn coding::fib::Fib::next
ensures r is Ok <==> old(self).i_1 + old(self).i <= u64::MAX,
   r is Ok ==> final(self).i_1 == old(self).i && final(self).i == old(self).i_1 + old(self).i,
   r is Err ==> *final(self) == *old(self)
//@ fn coding::fib::Fib::prev
requires old(self).i_1 <= old(self).i
ensures final(self).i == old(self).i_1, final(self).i_1 == old(self).i - old(self).i_1
//@ fn coding::fib::<FibonacciasUniversalCode>::encode
//@ attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ entry
let ghost v0 = value; let ghost mut n = 1nat;
proof { lemma_fb(0); lemma_fb_93(); }
//@ loop 0
invariant n >= 1, fib.i_1 == fb(n), fib.i == fb(n + 1), fb(n) <= value, value == v0, v0 != 0, n <= 93,
decreases 94 - n
//@ before next 0
proof { lemma_fb(n); if n + 1 >= 94 { lemma_fb_mono(94, n + 1); } if v0 < max_fib() { if n + 1 >= 93 { lemma_fb_mono(93, n + 1); } lemma_fb_mono(n + 2, 93); } }
//@ loopend 0
proof { n = n + 1; }
//@ pre 1
let ghost mut m = n;
proof {
  lemma_fb(n); if n == 1 { }
  if v0 >= max_fib() { if n + 1 <= 93 { lemma_fb_mono(n + 1, 93); } else { lemma_fb_mono(94, n + 1); } }
  lemma_is_top(v0 as nat, n);
  assert(zeck(value as nat, m) + rev(stack@) =~= zeck(v0 as nat, n).push(true));
}
//@ loop 1
invariant 1 <= m <= n, fib.i_1 == fb(m), fib.i == fb(m + 1), value < fb(m + 1), zeck(value as nat, m) + rev(stack@) == self.code(v0),
decreases m
//@ before push 0
proof { let z = zeck(value as nat, (m - 1) as nat); assert(zeck((value + fb(m)) as nat, m) == z.push(true)); assert(z.push(true) + rev(stack@) =~= z + rev(stack@.push(true))); }
//@ before push 1
proof { let z = zeck(value as nat, (m - 1) as nat); assert(zeck(value as nat, m) == z.push(false)); assert(z.push(false) + rev(stack@) =~= z + rev(stack@.push(false))); }
//@ before prev 0
proof { lemma_fb(m); lemma_fb((m - 1) as nat); lemma_fb(0); if m == 1 { } lemma_fb((m - 2) as nat); }
//@ loopend 1
proof { m = (m - 1) as nat; }
//@ pre 2
proof { lemma_fb(0); if m >= 2 { lemma_fb_mono(3, m + 1); } assert(zeck(value as nat, m) + rev(stack@) =~= rev(stack@)); }
//@ loop 2
invariant sink.wwf(), sink.sure() == old(sink).sure(), sink.out() + rev(stack@) == old(sink).out() + self.code(v0),
ensures sink.out() + Seq::<bool>::empty() == old(sink).out() + self.code(v0),
decreases stack@.len()
//@ before write_bit 0
let ghost o = sink.out();
proof { assert(o.push(bit) + rev(stack@) =~= o + rev(stack@.push(bit))); }
//@ after pop 0
proof { assert(sink.out() + Seq::<bool>::empty() =~= sink.out()); }
//@ fn coding::fib::<FibonacciasUniversalCode>::decode
//@ entry
let ghost s = source.rem(); let ghost mut j = 0nat;
proof { source.law_rem(); lemma_fb(0); lemma_fb_93(); assert(s.skip(0) =~= s); }
//@ loop 0
invariant source.rwf(), source.reliable() == old(source).reliable(), s == old(source).rem(),
   j <= s.len(), source.rem() == s.skip(j as int), consumed == (j > 0), fib.i_1 == fb(j + 1), fib.i == fb(j + 2),
   fdec(s, 0, 0, false) == fdec(s, j, result as nat, previous),
ensures j == s.len()
decreases s.len() - j
//@ before next 0
proof { lemma_fb(j + 1); }
//@ loopend 0
proof { assert(s.skip(j as int).skip(1) =~= s.skip(j as int + 1)); j = j + 1; }

//@ mod coding::comma
/// the value of the first n bits of s, least significant first
pub open spec fn dval(s: Seq<bool>, n: int) -> u64 { choose|x: u64| le_bits(x, s, n) }
pub proof fn lemma_dval(x: u64, s: Seq<bool>, n: int)
  requires le_bits(x, s, n)
  ensures x == dval(s, n)
{ let y = dval(s, n); assert(le_bits(y, s, n)); assert forall|i: int| 0 <= i < 64 implies x.bit(i) == y.bit(i) by {} u64::law_ext(x, y); }
/// the digit that ends a number
pub open spec fn comma(n: u8) -> u64 { ((1u64 << n) - 1) as u64 }
pub proof fn lemma_comma(n: u8)
  requires 2 <= n <= 63
  ensures comma(n) == (1u64 << n) - 1, comma(n) >= 3, (1u64 << n) >= 4
{ assert(2 <= n <= 63 ==> (1u64 << n) >= 4) by (bit_vector); }
/// n bits hold no more than the comma
pub proof fn lemma_digit_max(x: u64, s: Seq<bool>, n: u8)
  requires le_bits(x, s, n as int), 2 <= n <= 63
  ensures x <= comma(n)
{
  lemma_comma(n); let c = comma(n);
  assert forall|i: int| 0 <= i < 64 implies x.bit(i) == (x & c).bit(i) by {
    let j = i as u64; 
    assert(x.bit(i) == ((x >> j) & 1 == 1) && (x & c).bit(i) == (((x & c) >> j) & 1 == 1));
    if i < n { assert(2 <= n <= 63 && j < n && c == ((1u64 << n) - 1) as u64 ==> ((x & c) >> j) & 1 == (x >> j) & 1) by (bit_vector); }
    else { assert(!x.bit(i)); assert(j < 64 && (x >> j) & 1 != 1 ==> ((x & c) >> j) & 1 != 1) by (bit_vector); }
  }
  u64::law_ext(x, x & c);
  assert(x & c <= c) by (bit_vector);
}
/// a digit is the value of its n low bits
pub proof fn lemma_digit(d: u64, n: u8, t: Seq<bool>)
  requires 2 <= n <= 63, d <= comma(n)
  ensures dval(low(d, n as nat) + t, n as int) == d
{
  lemma_comma(n); let s = low(d, n as nat) + t;
  assert forall|i: int| #[trigger] d.bit(i) == (0 <= i < n && i < 64 && s[i]) by {
    if n <= i < 64 { let j = i as u64; let c = comma(n);
      assert(2 <= n <= 63 && n <= j < 64 && c == ((1u64 << n) - 1) as u64 && d <= c ==> (d >> j) & 1 == 0) by (bit_vector); }
  }
  assert(le_bits(d, s, n as int));
  lemma_dval(d, s, n as int);
}
pub open spec fn digs(v: u64, n: u8) -> Seq<bool> decreases v when comma(n) >= 2 via digs_down
{ if v == 0 { Seq::empty() } else { digs(v / comma(n), n) + low(v % comma(n), n as nat) } }
#[via_fn] proof fn digs_down(v: u64, n: u8) { if v > 0 { let b = comma(n); assert(v / b < v) by (nonlinear_arith) requires v > 0, b >= 2; } }
pub open spec fn cdec(s: Seq<bool>, n: u8, pos: nat, acc: nat) -> Dec decreases s.len() - pos
{
  if n == 0 || pos + n > s.len() { Dec::Bad }
  else { let d = dval(s.skip(pos as int), n as int);
    if d == comma(n) { Dec::Val(acc as u64, pos + n as nat) }
    else if acc * comma(n) + d > u64::MAX { Dec::Bad }
    else { cdec(s, n, pos + n as nat, acc * (comma(n) as nat) + (d as nat)) } }
}
pub proof fn lemma_cdec_len(s: Seq<bool>, n: u8, pos: nat, acc: nat)
  ensures !(cdec(s, n, pos, acc) is Eof), cdec(s, n, pos, acc) matches Dec::Val(v, k) ==> 0 < k <= s.len()
  decreases s.len() - pos
{ if n > 0 && pos + n <= s.len() { lemma_cdec_len(s, n, pos + n as nat, acc * (comma(n) as nat) + (dval(s.skip(pos as int), n as int) as nat)); } }
pub proof fn lemma_digs(v: u64, n: u8, t: Seq<bool>)
  requires 2 <= n <= 63
  ensures cdec(digs(v, n) + t, n, 0, 0) == cdec(digs(v, n) + t, n, digs(v, n).len(), v as nat)
  decreases v
{
  lemma_comma(n);
  if v > 0 {
    let b = comma(n); let q = v / b; let d = v % b; let l = low(d, n as nat); let g = digs(q, n); let s = digs(v, n) + t;
    assert(q < v) by (nonlinear_arith) requires q == v / b, v > 0, b >= 3;
    lemma_digs(q, n, l + t);
    assert(g + (l + t) =~= s);
    lemma_digit(d, n, t);
    assert(s.skip(g.len() as int) =~= l + t);
    assert(q * b + d == v) by (nonlinear_arith) requires q == v / b, d == v % b, b >= 3;
  }
}
pub open spec fn cflat(st: Seq<u64>, n: u8) -> Seq<bool> decreases st.len()
{ if st.len() == 0 { Seq::empty() } else { low(st.last(), n as nat) + cflat(st.drop_last(), n) } }
//@ impl coding::comma::<CommaasUniversalCode>
    open spec fn cfg_ok(&self) -> bool { 2 <= self.0 <= 63 }
    open spec fn takes(&self, v: u64) -> bool { true }
    open spec fn code_ok(&self, v: u64) -> bool { true }
    open spec fn code(&self, v: u64) -> Seq<bool> { digs(v, self.0) + low(comma(self.0), self.0 as nat) }
    open spec fn dec(&self, s: Seq<bool>) -> Dec { if s.len() == 0 { Dec::Eof } else { cdec(s, self.0, 0, 0) } }
    proof fn lemma_roundtrip(&self, v: u64, t: Seq<bool>) {
      let n = self.0; let l = low(comma(n), n as nat); let g = digs(v, n); let s = self.code(v) + t;
      lemma_comma(n); lemma_digs(v, n, l + t); assert(g + (l + t) =~= s);
      lemma_digit(comma(n), n, t); assert(s.skip(g.len() as int) =~= l + t);
    }
    proof fn lemma_eof(&self, s: Seq<bool>) { lemma_cdec_len(s, self.0, 0, 0); }
//@ fn coding::comma::<CommaasUniversalCode>::encode
//@ attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ entry
let ghost v0 = value;
proof { u64::law_nb(); lemma_comma(self.0); }
//@ pre 0
proof { assert(digs(v0, self.0) + cflat(stack@, self.0) =~= digs(v0, self.0)); }
//@ loop 0
invariant base == comma(self.0), base >= 3, digs(value, self.0) + cflat(stack@, self.0) == digs(v0, self.0),
decreases value
//@ before push 0
let ghost st = stack@; let ghost v1 = value;
proof { assert(value / base < value) by (nonlinear_arith) requires value > 0, base >= 3;
  assert(base * (value / base) == value - value % base && (value / base) * base == value - value % base && value % base <= value) by (nonlinear_arith) requires value > 0, base >= 3; }
//@ loopend 0
proof {
  assert(stack@.drop_last() =~= st);
  assert(digs(value, self.0) + cflat(stack@, self.0) =~= (digs(value, self.0) + low(v1 % base, self.0 as nat)) + cflat(st, self.0));
}
//@ pre 1
proof { assert(digs(value, self.0) =~= Seq::<bool>::empty()); assert(cflat(stack@, self.0) =~= digs(v0, self.0)); }
//@ loop 1
invariant sink.wwf(), sink.sure() == old(sink).sure(), sink.out() + cflat(stack@, self.0) == old(sink).out() + digs(v0, self.0),
ensures sink.out() + Seq::<bool>::empty() == old(sink).out() + digs(v0, self.0),
decreases stack@.len()
//@ before write_int 0
let ghost o = sink.out();
proof { assert((o + low(digit, self.0 as nat)) + cflat(stack@, self.0) =~= o + (low(digit, self.0 as nat) + cflat(stack@, self.0))); }
//@ after pop 0
proof { assert(sink.out() + Seq::<bool>::empty() =~= sink.out()); }
//@ after write_int 1
proof { assert((old(sink).out() + digs(v0, self.0)) + low(base, self.0 as nat) =~= old(sink).out() + self.code(v0)); }
//@ fn coding::comma::<CommaasUniversalCode>::decode
//@ entry
let ghost s = source.rem(); let ghost mut pos = 0nat;
proof { u64::law_nb(); lemma_comma(self.0); lemma_cdec_len(s, self.0, 0, 0); assert(s.skip(0) =~= s); }
//@ loop 0
invariant source.rwf(), source.reliable() == old(source).reliable(), s == old(source).rem(), pos <= s.len(), source.rem() == s.skip(pos as int),
  self.cfg_ok(), base == comma(self.0), base >= 3, consumed == (pos > 0), cdec(s, self.0, 0, 0) == cdec(s, self.0, pos, result as nat),
decreases s.len() - pos
//@ before read_int 0
proof {
  assert forall|x: u64| #[trigger] le_bits(x, s.skip(pos as int), self.0 as int) implies x == dval(s.skip(pos as int), self.0 as int) && x <= comma(self.0) by { lemma_dval(x, s.skip(pos as int), self.0 as int); lemma_digit_max(x, s.skip(pos as int), self.0); }
  if pos + self.0 <= s.len() { assert(s.skip(pos as int).skip(self.0 as int) =~= s.skip(pos as int + self.0)); }
}
//@ loopend 0
proof { pos = pos + self.0 as nat; }
