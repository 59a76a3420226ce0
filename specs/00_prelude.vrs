//@ prelude
pub mod vxp {
use vstd::prelude::*;
use core::ops::*;
pub use vstd::std_specs::ops::*;
pub use vstd::std_specs::cmp::*;
verus! {

// ---------------------------------------------------------------- panics
// `panics_allowed()` is an unconstrained constant: every function is verified for both values.
// Where it is false, no panic may be reachable (panicking calls need it as a precondition).
// Where it is true, a panicking call ends the path, so a postcondition such as
// `position < len` says: the call returns only if the position was in bounds.
pub uninterp spec fn panics_allowed() -> bool;

#[verifier::external_body]
pub fn vx_panic() -> !
    requires panics_allowed()
    ensures false
{ panic!() }

// the panic of a refusing mutator (R21; an assertion that nothing has changed precedes every call)
#[verifier::external_body]
pub fn vx_refuse() -> !
    requires !panics_allowed()
    ensures false
{ panic!() }

/// whether the crate is built with debug assertions: an unconstrained constant, so debug_assert! can neither be relied on nor fail
pub uninterp spec fn debug_build() -> bool;
#[verifier::external_body]
pub fn vx_debug_build() -> (r: bool) ensures r == debug_build() { cfg!(debug_assertions) }

/// R22: the machine addition itself, where a failing call may overflow: it panics in a debug build and wraps otherwise
#[verifier::external_body]
pub fn vx_add(a: u64, b: u64) -> (r: u64)
    requires panics_allowed() || a + b <= u64::MAX
    ensures a + b <= u64::MAX ==> r == a + b,
        a + b > u64::MAX ==> !debug_build() && r == a + b - 0x1_0000_0000_0000_0000
{ a + b }

// ---------------------------------------------------------------- bits
/// Number of true entries among the first n.
pub open spec fn ones(s: Seq<bool>, n: int) -> nat
    decreases n
{
    if n <= 0 { 0 } else { ones(s, n - 1) + (if n <= s.len() && s[n - 1] { 1nat } else { 0nat }) }
}

pub proof fn lemma_ones_bound(s: Seq<bool>, n: int)
    requires 0 <= n
    ensures ones(s, n) <= n
    decreases n
{ if n > 0 { lemma_ones_bound(s, n - 1); } }

pub proof fn lemma_ones_mono(s: Seq<bool>, a: int, b: int)
    requires 0 <= a <= b
    ensures ones(s, a) <= ones(s, b), ones(s, b) - ones(s, a) <= b - a
    decreases b
{ if a < b { lemma_ones_mono(s, a, b - 1); } }

pub proof fn lemma_ones_same(s: Seq<bool>, t: Seq<bool>, n: int)
    requires 0 <= n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i]
    ensures ones(s, n) == ones(t, n)
    decreases n
{ if n > 0 { lemma_ones_same(s, t, n - 1); } }

/// ones over s[a..a+n] when t agrees with it from 0
pub proof fn lemma_ones_shift(s: Seq<bool>, a: int, t: Seq<bool>, n: int)
    requires 0 <= a, 0 <= n <= t.len(), a + n <= s.len(), forall|i: int| 0 <= i < n ==> t[i] == s[a + i]
    ensures ones(s, a + n) == ones(s, a) + ones(t, n)
    decreases n
{ if n > 0 { lemma_ones_shift(s, a, t, n - 1); } }

/// s with s[a..a+n] replaced by the bits f(0)..f(n-1)
pub open spec fn overwrite(s: Seq<bool>, a: int, n: int, f: spec_fn(int) -> bool) -> Seq<bool> {
    Seq::new(s.len(), |i: int| if a <= i < a + n { f(i - a) } else { s[i] })
}

// ---------------------------------------------------------------- machine integers (num_traits)
/// Stands for num_traits::PrimInt.  Everything assumed of it here is discharged on the real
/// primitive types by the Kani harnesses `law_*` (/verif/kani).
pub trait PrimInt: Sized + Copy + PartialEq + PartialOrd + BitAnd<Output = Self> + BitOr<Output = Self>
    + Not<Output = Self> + Shl<usize, Output = Self> + Shr<usize, Output = Self>
{
    spec fn nb() -> nat;
    spec fn bit(self, i: int) -> bool;

    fn zero() -> (r: Self) ensures forall|i: int| !#[trigger] r.bit(i);
    fn one() -> (r: Self) ensures forall|i: int| #[trigger] r.bit(i) == (i == 0);
    fn count_ones(self) -> (r: u32) ensures r == ones(Seq::new(Self::nb(), |i: int| self.bit(i)), Self::nb() as int);
    fn unsigned_shr(self, k: u32) -> (r: Self)
        requires k < Self::nb()
        ensures forall|i: int| #[trigger] r.bit(i) == (0 <= i && self.bit(i + k));

    proof fn law_nb() ensures Self::nb() == 8 || Self::nb() == 16 || Self::nb() == 32 || Self::nb() == 64;
    proof fn law_range(self, i: int) ensures self.bit(i) ==> 0 <= i < Self::nb();
    proof fn law_ext(a: Self, b: Self)
        requires forall|i: int| 0 <= i < Self::nb() ==> a.bit(i) == b.bit(i)
        ensures a == b;
    proof fn law_shift()
       ensures
         <Self as ShlSpec<usize>>::obeys_shl_spec(), <Self as ShrSpec<usize>>::obeys_shr_spec(),
         forall|a: Self, k: usize| k < Self::nb() ==> #[trigger] a.shl_req(k),
         forall|a: Self, k: usize| k < Self::nb() ==> #[trigger] a.shr_req(k),
         forall|a: Self, k: usize, i: int| k < Self::nb() ==> #[trigger] a.shl_spec(k).bit(i) == (i < Self::nb() && a.bit(i - k)),
         forall|a: Self, k: usize, i: int| k < Self::nb() ==> #[trigger] a.shr_spec(k).bit(i) == (i >= 0 && a.bit(i + k)),
    ;
    proof fn laws()
       ensures
         Self::obeys_bitand_spec(), Self::obeys_bitor_spec(), Self::obeys_not_spec(),
         <Self as ShlSpec<usize>>::obeys_shl_spec(), <Self as ShrSpec<usize>>::obeys_shr_spec(),
         Self::obeys_eq_spec(),
         forall|a: Self, b: Self| #[trigger] a.eq_spec(&b) <==> a == b,
         forall|a: Self, b: Self| #[trigger] a.bitand_req(b),
         forall|a: Self, b: Self| #[trigger] a.bitor_req(b),
         forall|a: Self| #[trigger] a.not_req(),
         forall|a: Self, k: usize| k < Self::nb() ==> #[trigger] a.shl_req(k),
         forall|a: Self, k: usize| k < Self::nb() ==> #[trigger] a.shr_req(k),
         forall|a: Self, i: int| #[trigger] a.bit(i) ==> 0 <= i < Self::nb(),
         forall|a: Self, b: Self, i: int| #[trigger] a.bitand_spec(b).bit(i) == (a.bit(i) && b.bit(i)),
         forall|a: Self, b: Self, i: int| #[trigger] a.bitor_spec(b).bit(i) == (a.bit(i) || b.bit(i)),
         forall|a: Self, i: int| #[trigger] a.not_spec().bit(i) == (0 <= i < Self::nb() && !a.bit(i)),
         forall|a: Self, k: usize, i: int| k < Self::nb() ==> #[trigger] a.shl_spec(k).bit(i) == (i < Self::nb() && a.bit(i - k)),
         forall|a: Self, k: usize, i: int| k < Self::nb() && i + k < Self::nb() ==> #[trigger] a.shr_spec(k).bit(i) == (i >= 0 && a.bit(i + k)),
    ;
}


impl PrimInt for u8 {
    open spec fn nb() -> nat { 8 }
    open spec fn bit(self, i: int) -> bool { 0 <= i < 8 && (self >> (i as u8)) & 1 == 1 }
    #[verifier::external_body]
    fn zero() -> (r: Self) ensures r == 0 { 0 }
    #[verifier::external_body]
    fn one() -> (r: Self) ensures r == 1 { 1 }
    #[verifier::external_body]
    fn count_ones(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    fn unsigned_shr(self, k: u32) -> (r: Self) { unimplemented!() }
    proof fn law_nb() {}
    proof fn law_range(self, i: int) {}
    proof fn law_ext(a: Self, b: Self) {
       let f = |i: int| (a >> (i as u8)) & 1 == (b >> (i as u8)) & 1;
       assert forall|i: int| 0 <= i < 8 implies #[trigger] f(i) by { assert(a.bit(i) == b.bit(i)); let k = i as u8;
           assert((a >> k) & 1 == 0 || (a >> k) & 1 == 1) by (bit_vector);
           assert((b >> k) & 1 == 0 || (b >> k) & 1 == 1) by (bit_vector); }
       assert(f(0)); assert(f(1)); assert(f(2)); assert(f(3)); assert(f(4)); assert(f(5)); assert(f(6)); assert(f(7));
       assert(a == b) by (bit_vector) requires (a >> 0u8) & 1 == (b >> 0u8) & 1, (a >> 1u8) & 1 == (b >> 1u8) & 1, (a >> 2u8) & 1 == (b >> 2u8) & 1, (a >> 3u8) & 1 == (b >> 3u8) & 1, (a >> 4u8) & 1 == (b >> 4u8) & 1, (a >> 5u8) & 1 == (b >> 5u8) & 1, (a >> 6u8) & 1 == (b >> 6u8) & 1, (a >> 7u8) & 1 == (b >> 7u8) & 1;
    }
    proof fn laws() {
       assert forall|a: Self, b: Self, i: int| #[trigger] BitAndSpec::bitand_spec(a, b).bit(i) == (a.bit(i) && b.bit(i)) by {
           let k = i as u8;
           assert(((a & b) >> k) & 1 == 1 <==> (a >> k) & 1 == 1 && (b >> k) & 1 == 1) by (bit_vector);
       }
       assert forall|a: Self, b: Self, i: int| #[trigger] BitOrSpec::bitor_spec(a, b).bit(i) == (a.bit(i) || b.bit(i)) by {
           let k = i as u8;
           assert(((a | b) >> k) & 1 == 1 <==> (a >> k) & 1 == 1 || (b >> k) & 1 == 1) by (bit_vector);
       }
       assert forall|a: Self, i: int| #[trigger] NotSpec::not_spec(a).bit(i) == (0 <= i < Self::nb() && !a.bit(i)) by {
           let k = i as u8;
           assert(k < 8 ==> ((!a >> k) & 1 == 1 <==> !((a >> k) & 1 == 1))) by (bit_vector);
       }
       Self::law_shift();
    }
    // vstd does not say what `<< usize` is on this type; Kani checks it (laws::)
    #[verifier::external_body]
    proof fn law_shift() {}
}
impl PrimInt for u16 {
    open spec fn nb() -> nat { 16 }
    open spec fn bit(self, i: int) -> bool { 0 <= i < 16 && (self >> (i as u16)) & 1 == 1 }
    #[verifier::external_body]
    fn zero() -> (r: Self) ensures r == 0 { 0 }
    #[verifier::external_body]
    fn one() -> (r: Self) ensures r == 1 { 1 }
    #[verifier::external_body]
    fn count_ones(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    fn unsigned_shr(self, k: u32) -> (r: Self) { unimplemented!() }
    proof fn law_nb() {}
    proof fn law_range(self, i: int) {}
    proof fn law_ext(a: Self, b: Self) {
       let f = |i: int| (a >> (i as u16)) & 1 == (b >> (i as u16)) & 1;
       assert forall|i: int| 0 <= i < 16 implies #[trigger] f(i) by { assert(a.bit(i) == b.bit(i)); let k = i as u16;
           assert((a >> k) & 1 == 0 || (a >> k) & 1 == 1) by (bit_vector);
           assert((b >> k) & 1 == 0 || (b >> k) & 1 == 1) by (bit_vector); }
       assert(f(0)); assert(f(1)); assert(f(2)); assert(f(3)); assert(f(4)); assert(f(5)); assert(f(6)); assert(f(7)); assert(f(8)); assert(f(9)); assert(f(10)); assert(f(11)); assert(f(12)); assert(f(13)); assert(f(14)); assert(f(15));
       assert(a == b) by (bit_vector) requires (a >> 0u16) & 1 == (b >> 0u16) & 1, (a >> 1u16) & 1 == (b >> 1u16) & 1, (a >> 2u16) & 1 == (b >> 2u16) & 1, (a >> 3u16) & 1 == (b >> 3u16) & 1, (a >> 4u16) & 1 == (b >> 4u16) & 1, (a >> 5u16) & 1 == (b >> 5u16) & 1, (a >> 6u16) & 1 == (b >> 6u16) & 1, (a >> 7u16) & 1 == (b >> 7u16) & 1, (a >> 8u16) & 1 == (b >> 8u16) & 1, (a >> 9u16) & 1 == (b >> 9u16) & 1, (a >> 10u16) & 1 == (b >> 10u16) & 1, (a >> 11u16) & 1 == (b >> 11u16) & 1, (a >> 12u16) & 1 == (b >> 12u16) & 1, (a >> 13u16) & 1 == (b >> 13u16) & 1, (a >> 14u16) & 1 == (b >> 14u16) & 1, (a >> 15u16) & 1 == (b >> 15u16) & 1;
    }
    proof fn laws() {
       assert forall|a: Self, b: Self, i: int| #[trigger] BitAndSpec::bitand_spec(a, b).bit(i) == (a.bit(i) && b.bit(i)) by {
           let k = i as u16;
           assert(((a & b) >> k) & 1 == 1 <==> (a >> k) & 1 == 1 && (b >> k) & 1 == 1) by (bit_vector);
       }
       assert forall|a: Self, b: Self, i: int| #[trigger] BitOrSpec::bitor_spec(a, b).bit(i) == (a.bit(i) || b.bit(i)) by {
           let k = i as u16;
           assert(((a | b) >> k) & 1 == 1 <==> (a >> k) & 1 == 1 || (b >> k) & 1 == 1) by (bit_vector);
       }
       assert forall|a: Self, i: int| #[trigger] NotSpec::not_spec(a).bit(i) == (0 <= i < Self::nb() && !a.bit(i)) by {
           let k = i as u16;
           assert(k < 16 ==> ((!a >> k) & 1 == 1 <==> !((a >> k) & 1 == 1))) by (bit_vector);
       }
       Self::law_shift();
    }
    // vstd does not say what `<< usize` is on this type; Kani checks it (laws::)
    #[verifier::external_body]
    proof fn law_shift() {}
}
impl PrimInt for u32 {
    open spec fn nb() -> nat { 32 }
    open spec fn bit(self, i: int) -> bool { 0 <= i < 32 && (self >> (i as u32)) & 1 == 1 }
    #[verifier::external_body]
    fn zero() -> (r: Self) ensures r == 0 { 0 }
    #[verifier::external_body]
    fn one() -> (r: Self) ensures r == 1 { 1 }
    #[verifier::external_body]
    fn count_ones(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    fn unsigned_shr(self, k: u32) -> (r: Self) { unimplemented!() }
    proof fn law_nb() {}
    proof fn law_range(self, i: int) {}
    proof fn law_ext(a: Self, b: Self) {
       let f = |i: int| (a >> (i as u32)) & 1 == (b >> (i as u32)) & 1;
       assert forall|i: int| 0 <= i < 32 implies #[trigger] f(i) by { assert(a.bit(i) == b.bit(i)); let k = i as u32;
           assert((a >> k) & 1 == 0 || (a >> k) & 1 == 1) by (bit_vector);
           assert((b >> k) & 1 == 0 || (b >> k) & 1 == 1) by (bit_vector); }
       assert(f(0)); assert(f(1)); assert(f(2)); assert(f(3)); assert(f(4)); assert(f(5)); assert(f(6)); assert(f(7)); assert(f(8)); assert(f(9)); assert(f(10)); assert(f(11)); assert(f(12)); assert(f(13)); assert(f(14)); assert(f(15)); assert(f(16)); assert(f(17)); assert(f(18)); assert(f(19)); assert(f(20)); assert(f(21)); assert(f(22)); assert(f(23)); assert(f(24)); assert(f(25)); assert(f(26)); assert(f(27)); assert(f(28)); assert(f(29)); assert(f(30)); assert(f(31));
       assert(a == b) by (bit_vector) requires (a >> 0u32) & 1 == (b >> 0u32) & 1, (a >> 1u32) & 1 == (b >> 1u32) & 1, (a >> 2u32) & 1 == (b >> 2u32) & 1, (a >> 3u32) & 1 == (b >> 3u32) & 1, (a >> 4u32) & 1 == (b >> 4u32) & 1, (a >> 5u32) & 1 == (b >> 5u32) & 1, (a >> 6u32) & 1 == (b >> 6u32) & 1, (a >> 7u32) & 1 == (b >> 7u32) & 1, (a >> 8u32) & 1 == (b >> 8u32) & 1, (a >> 9u32) & 1 == (b >> 9u32) & 1, (a >> 10u32) & 1 == (b >> 10u32) & 1, (a >> 11u32) & 1 == (b >> 11u32) & 1, (a >> 12u32) & 1 == (b >> 12u32) & 1, (a >> 13u32) & 1 == (b >> 13u32) & 1, (a >> 14u32) & 1 == (b >> 14u32) & 1, (a >> 15u32) & 1 == (b >> 15u32) & 1, (a >> 16u32) & 1 == (b >> 16u32) & 1, (a >> 17u32) & 1 == (b >> 17u32) & 1, (a >> 18u32) & 1 == (b >> 18u32) & 1, (a >> 19u32) & 1 == (b >> 19u32) & 1, (a >> 20u32) & 1 == (b >> 20u32) & 1, (a >> 21u32) & 1 == (b >> 21u32) & 1, (a >> 22u32) & 1 == (b >> 22u32) & 1, (a >> 23u32) & 1 == (b >> 23u32) & 1, (a >> 24u32) & 1 == (b >> 24u32) & 1, (a >> 25u32) & 1 == (b >> 25u32) & 1, (a >> 26u32) & 1 == (b >> 26u32) & 1, (a >> 27u32) & 1 == (b >> 27u32) & 1, (a >> 28u32) & 1 == (b >> 28u32) & 1, (a >> 29u32) & 1 == (b >> 29u32) & 1, (a >> 30u32) & 1 == (b >> 30u32) & 1, (a >> 31u32) & 1 == (b >> 31u32) & 1;
    }
    proof fn laws() {
       assert forall|a: Self, b: Self, i: int| #[trigger] BitAndSpec::bitand_spec(a, b).bit(i) == (a.bit(i) && b.bit(i)) by {
           let k = i as u32;
           assert(((a & b) >> k) & 1 == 1 <==> (a >> k) & 1 == 1 && (b >> k) & 1 == 1) by (bit_vector);
       }
       assert forall|a: Self, b: Self, i: int| #[trigger] BitOrSpec::bitor_spec(a, b).bit(i) == (a.bit(i) || b.bit(i)) by {
           let k = i as u32;
           assert(((a | b) >> k) & 1 == 1 <==> (a >> k) & 1 == 1 || (b >> k) & 1 == 1) by (bit_vector);
       }
       assert forall|a: Self, i: int| #[trigger] NotSpec::not_spec(a).bit(i) == (0 <= i < Self::nb() && !a.bit(i)) by {
           let k = i as u32;
           assert(k < 32 ==> ((!a >> k) & 1 == 1 <==> !((a >> k) & 1 == 1))) by (bit_vector);
       }
       Self::law_shift();
    }
    // vstd does not say what `<< usize` is on this type; Kani checks it (laws::)
    #[verifier::external_body]
    proof fn law_shift() {}
}
impl PrimInt for u64 {
    open spec fn nb() -> nat { 64 }
    open spec fn bit(self, i: int) -> bool { 0 <= i < 64 && (self >> (i as u64)) & 1 == 1 }
    #[verifier::external_body]
    fn zero() -> (r: Self) ensures r == 0 { 0 }
    #[verifier::external_body]
    fn one() -> (r: Self) ensures r == 1 { 1 }
    #[verifier::external_body]
    fn count_ones(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    fn unsigned_shr(self, k: u32) -> (r: Self) { unimplemented!() }
    proof fn law_nb() {}
    proof fn law_range(self, i: int) {}
    proof fn law_ext(a: Self, b: Self) {
       let f = |i: int| (a >> (i as u64)) & 1 == (b >> (i as u64)) & 1;
       assert forall|i: int| 0 <= i < 64 implies #[trigger] f(i) by { assert(a.bit(i) == b.bit(i)); let k = i as u64;
           assert((a >> k) & 1 == 0 || (a >> k) & 1 == 1) by (bit_vector);
           assert((b >> k) & 1 == 0 || (b >> k) & 1 == 1) by (bit_vector); }
       assert(f(0)); assert(f(1)); assert(f(2)); assert(f(3)); assert(f(4)); assert(f(5)); assert(f(6)); assert(f(7)); assert(f(8)); assert(f(9)); assert(f(10)); assert(f(11)); assert(f(12)); assert(f(13)); assert(f(14)); assert(f(15)); assert(f(16)); assert(f(17)); assert(f(18)); assert(f(19)); assert(f(20)); assert(f(21)); assert(f(22)); assert(f(23)); assert(f(24)); assert(f(25)); assert(f(26)); assert(f(27)); assert(f(28)); assert(f(29)); assert(f(30)); assert(f(31)); assert(f(32)); assert(f(33)); assert(f(34)); assert(f(35)); assert(f(36)); assert(f(37)); assert(f(38)); assert(f(39)); assert(f(40)); assert(f(41)); assert(f(42)); assert(f(43)); assert(f(44)); assert(f(45)); assert(f(46)); assert(f(47)); assert(f(48)); assert(f(49)); assert(f(50)); assert(f(51)); assert(f(52)); assert(f(53)); assert(f(54)); assert(f(55)); assert(f(56)); assert(f(57)); assert(f(58)); assert(f(59)); assert(f(60)); assert(f(61)); assert(f(62)); assert(f(63));
       assert(a == b) by (bit_vector) requires (a >> 0u64) & 1 == (b >> 0u64) & 1, (a >> 1u64) & 1 == (b >> 1u64) & 1, (a >> 2u64) & 1 == (b >> 2u64) & 1, (a >> 3u64) & 1 == (b >> 3u64) & 1, (a >> 4u64) & 1 == (b >> 4u64) & 1, (a >> 5u64) & 1 == (b >> 5u64) & 1, (a >> 6u64) & 1 == (b >> 6u64) & 1, (a >> 7u64) & 1 == (b >> 7u64) & 1, (a >> 8u64) & 1 == (b >> 8u64) & 1, (a >> 9u64) & 1 == (b >> 9u64) & 1, (a >> 10u64) & 1 == (b >> 10u64) & 1, (a >> 11u64) & 1 == (b >> 11u64) & 1, (a >> 12u64) & 1 == (b >> 12u64) & 1, (a >> 13u64) & 1 == (b >> 13u64) & 1, (a >> 14u64) & 1 == (b >> 14u64) & 1, (a >> 15u64) & 1 == (b >> 15u64) & 1, (a >> 16u64) & 1 == (b >> 16u64) & 1, (a >> 17u64) & 1 == (b >> 17u64) & 1, (a >> 18u64) & 1 == (b >> 18u64) & 1, (a >> 19u64) & 1 == (b >> 19u64) & 1, (a >> 20u64) & 1 == (b >> 20u64) & 1, (a >> 21u64) & 1 == (b >> 21u64) & 1, (a >> 22u64) & 1 == (b >> 22u64) & 1, (a >> 23u64) & 1 == (b >> 23u64) & 1, (a >> 24u64) & 1 == (b >> 24u64) & 1, (a >> 25u64) & 1 == (b >> 25u64) & 1, (a >> 26u64) & 1 == (b >> 26u64) & 1, (a >> 27u64) & 1 == (b >> 27u64) & 1, (a >> 28u64) & 1 == (b >> 28u64) & 1, (a >> 29u64) & 1 == (b >> 29u64) & 1, (a >> 30u64) & 1 == (b >> 30u64) & 1, (a >> 31u64) & 1 == (b >> 31u64) & 1, (a >> 32u64) & 1 == (b >> 32u64) & 1, (a >> 33u64) & 1 == (b >> 33u64) & 1, (a >> 34u64) & 1 == (b >> 34u64) & 1, (a >> 35u64) & 1 == (b >> 35u64) & 1, (a >> 36u64) & 1 == (b >> 36u64) & 1, (a >> 37u64) & 1 == (b >> 37u64) & 1, (a >> 38u64) & 1 == (b >> 38u64) & 1, (a >> 39u64) & 1 == (b >> 39u64) & 1, (a >> 40u64) & 1 == (b >> 40u64) & 1, (a >> 41u64) & 1 == (b >> 41u64) & 1, (a >> 42u64) & 1 == (b >> 42u64) & 1, (a >> 43u64) & 1 == (b >> 43u64) & 1, (a >> 44u64) & 1 == (b >> 44u64) & 1, (a >> 45u64) & 1 == (b >> 45u64) & 1, (a >> 46u64) & 1 == (b >> 46u64) & 1, (a >> 47u64) & 1 == (b >> 47u64) & 1, (a >> 48u64) & 1 == (b >> 48u64) & 1, (a >> 49u64) & 1 == (b >> 49u64) & 1, (a >> 50u64) & 1 == (b >> 50u64) & 1, (a >> 51u64) & 1 == (b >> 51u64) & 1, (a >> 52u64) & 1 == (b >> 52u64) & 1, (a >> 53u64) & 1 == (b >> 53u64) & 1, (a >> 54u64) & 1 == (b >> 54u64) & 1, (a >> 55u64) & 1 == (b >> 55u64) & 1, (a >> 56u64) & 1 == (b >> 56u64) & 1, (a >> 57u64) & 1 == (b >> 57u64) & 1, (a >> 58u64) & 1 == (b >> 58u64) & 1, (a >> 59u64) & 1 == (b >> 59u64) & 1, (a >> 60u64) & 1 == (b >> 60u64) & 1, (a >> 61u64) & 1 == (b >> 61u64) & 1, (a >> 62u64) & 1 == (b >> 62u64) & 1, (a >> 63u64) & 1 == (b >> 63u64) & 1;
    }
    proof fn laws() {
       assert forall|a: Self, b: Self, i: int| #[trigger] BitAndSpec::bitand_spec(a, b).bit(i) == (a.bit(i) && b.bit(i)) by {
           let k = i as u64;
           assert(((a & b) >> k) & 1 == 1 <==> (a >> k) & 1 == 1 && (b >> k) & 1 == 1) by (bit_vector);
       }
       assert forall|a: Self, b: Self, i: int| #[trigger] BitOrSpec::bitor_spec(a, b).bit(i) == (a.bit(i) || b.bit(i)) by {
           let k = i as u64;
           assert(((a | b) >> k) & 1 == 1 <==> (a >> k) & 1 == 1 || (b >> k) & 1 == 1) by (bit_vector);
       }
       assert forall|a: Self, i: int| #[trigger] NotSpec::not_spec(a).bit(i) == (0 <= i < Self::nb() && !a.bit(i)) by {
           let k = i as u64;
           assert(k < 64 ==> ((!a >> k) & 1 == 1 <==> !((a >> k) & 1 == 1))) by (bit_vector);
       }
       Self::law_shift();
    }
    // vstd does not say what `<< usize` is on this type; Kani checks it (laws::)
    #[verifier::external_body]
    proof fn law_shift() {}
}
impl PrimInt for usize {
    open spec fn nb() -> nat { 64 }
    open spec fn bit(self, i: int) -> bool { 0 <= i < 64 && (self >> (i as usize)) & 1 == 1 }
    #[verifier::external_body]
    fn zero() -> (r: Self) ensures r == 0 { 0 }
    #[verifier::external_body]
    fn one() -> (r: Self) ensures r == 1 { 1 }
    #[verifier::external_body]
    fn count_ones(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    fn unsigned_shr(self, k: u32) -> (r: Self) { unimplemented!() }
    proof fn law_nb() {}
    proof fn law_range(self, i: int) {}
    proof fn law_ext(a: Self, b: Self) {
       let f = |i: int| (a >> (i as usize)) & 1 == (b >> (i as usize)) & 1;
       assert forall|i: int| 0 <= i < 64 implies #[trigger] f(i) by { assert(a.bit(i) == b.bit(i)); let k = i as usize;
           assert((a >> k) & 1 == 0 || (a >> k) & 1 == 1) by (bit_vector);
           assert((b >> k) & 1 == 0 || (b >> k) & 1 == 1) by (bit_vector); }
       assert(f(0)); assert(f(1)); assert(f(2)); assert(f(3)); assert(f(4)); assert(f(5)); assert(f(6)); assert(f(7)); assert(f(8)); assert(f(9)); assert(f(10)); assert(f(11)); assert(f(12)); assert(f(13)); assert(f(14)); assert(f(15)); assert(f(16)); assert(f(17)); assert(f(18)); assert(f(19)); assert(f(20)); assert(f(21)); assert(f(22)); assert(f(23)); assert(f(24)); assert(f(25)); assert(f(26)); assert(f(27)); assert(f(28)); assert(f(29)); assert(f(30)); assert(f(31)); assert(f(32)); assert(f(33)); assert(f(34)); assert(f(35)); assert(f(36)); assert(f(37)); assert(f(38)); assert(f(39)); assert(f(40)); assert(f(41)); assert(f(42)); assert(f(43)); assert(f(44)); assert(f(45)); assert(f(46)); assert(f(47)); assert(f(48)); assert(f(49)); assert(f(50)); assert(f(51)); assert(f(52)); assert(f(53)); assert(f(54)); assert(f(55)); assert(f(56)); assert(f(57)); assert(f(58)); assert(f(59)); assert(f(60)); assert(f(61)); assert(f(62)); assert(f(63));
       assert(a == b) by (bit_vector) requires (a >> 0usize) & 1 == (b >> 0usize) & 1, (a >> 1usize) & 1 == (b >> 1usize) & 1, (a >> 2usize) & 1 == (b >> 2usize) & 1, (a >> 3usize) & 1 == (b >> 3usize) & 1, (a >> 4usize) & 1 == (b >> 4usize) & 1, (a >> 5usize) & 1 == (b >> 5usize) & 1, (a >> 6usize) & 1 == (b >> 6usize) & 1, (a >> 7usize) & 1 == (b >> 7usize) & 1, (a >> 8usize) & 1 == (b >> 8usize) & 1, (a >> 9usize) & 1 == (b >> 9usize) & 1, (a >> 10usize) & 1 == (b >> 10usize) & 1, (a >> 11usize) & 1 == (b >> 11usize) & 1, (a >> 12usize) & 1 == (b >> 12usize) & 1, (a >> 13usize) & 1 == (b >> 13usize) & 1, (a >> 14usize) & 1 == (b >> 14usize) & 1, (a >> 15usize) & 1 == (b >> 15usize) & 1, (a >> 16usize) & 1 == (b >> 16usize) & 1, (a >> 17usize) & 1 == (b >> 17usize) & 1, (a >> 18usize) & 1 == (b >> 18usize) & 1, (a >> 19usize) & 1 == (b >> 19usize) & 1, (a >> 20usize) & 1 == (b >> 20usize) & 1, (a >> 21usize) & 1 == (b >> 21usize) & 1, (a >> 22usize) & 1 == (b >> 22usize) & 1, (a >> 23usize) & 1 == (b >> 23usize) & 1, (a >> 24usize) & 1 == (b >> 24usize) & 1, (a >> 25usize) & 1 == (b >> 25usize) & 1, (a >> 26usize) & 1 == (b >> 26usize) & 1, (a >> 27usize) & 1 == (b >> 27usize) & 1, (a >> 28usize) & 1 == (b >> 28usize) & 1, (a >> 29usize) & 1 == (b >> 29usize) & 1, (a >> 30usize) & 1 == (b >> 30usize) & 1, (a >> 31usize) & 1 == (b >> 31usize) & 1, (a >> 32usize) & 1 == (b >> 32usize) & 1, (a >> 33usize) & 1 == (b >> 33usize) & 1, (a >> 34usize) & 1 == (b >> 34usize) & 1, (a >> 35usize) & 1 == (b >> 35usize) & 1, (a >> 36usize) & 1 == (b >> 36usize) & 1, (a >> 37usize) & 1 == (b >> 37usize) & 1, (a >> 38usize) & 1 == (b >> 38usize) & 1, (a >> 39usize) & 1 == (b >> 39usize) & 1, (a >> 40usize) & 1 == (b >> 40usize) & 1, (a >> 41usize) & 1 == (b >> 41usize) & 1, (a >> 42usize) & 1 == (b >> 42usize) & 1, (a >> 43usize) & 1 == (b >> 43usize) & 1, (a >> 44usize) & 1 == (b >> 44usize) & 1, (a >> 45usize) & 1 == (b >> 45usize) & 1, (a >> 46usize) & 1 == (b >> 46usize) & 1, (a >> 47usize) & 1 == (b >> 47usize) & 1, (a >> 48usize) & 1 == (b >> 48usize) & 1, (a >> 49usize) & 1 == (b >> 49usize) & 1, (a >> 50usize) & 1 == (b >> 50usize) & 1, (a >> 51usize) & 1 == (b >> 51usize) & 1, (a >> 52usize) & 1 == (b >> 52usize) & 1, (a >> 53usize) & 1 == (b >> 53usize) & 1, (a >> 54usize) & 1 == (b >> 54usize) & 1, (a >> 55usize) & 1 == (b >> 55usize) & 1, (a >> 56usize) & 1 == (b >> 56usize) & 1, (a >> 57usize) & 1 == (b >> 57usize) & 1, (a >> 58usize) & 1 == (b >> 58usize) & 1, (a >> 59usize) & 1 == (b >> 59usize) & 1, (a >> 60usize) & 1 == (b >> 60usize) & 1, (a >> 61usize) & 1 == (b >> 61usize) & 1, (a >> 62usize) & 1 == (b >> 62usize) & 1, (a >> 63usize) & 1 == (b >> 63usize) & 1;
    }
    proof fn laws() {
       assert forall|a: Self, b: Self, i: int| #[trigger] BitAndSpec::bitand_spec(a, b).bit(i) == (a.bit(i) && b.bit(i)) by {
           let k = i as usize;
           assert(((a & b) >> k) & 1 == 1 <==> (a >> k) & 1 == 1 && (b >> k) & 1 == 1) by (bit_vector);
       }
       assert forall|a: Self, b: Self, i: int| #[trigger] BitOrSpec::bitor_spec(a, b).bit(i) == (a.bit(i) || b.bit(i)) by {
           let k = i as usize;
           assert(((a | b) >> k) & 1 == 1 <==> (a >> k) & 1 == 1 || (b >> k) & 1 == 1) by (bit_vector);
       }
       assert forall|a: Self, i: int| #[trigger] NotSpec::not_spec(a).bit(i) == (0 <= i < Self::nb() && !a.bit(i)) by {
           let k = i as usize;
           assert(k < 64 ==> ((!a >> k) & 1 == 1 <==> !((a >> k) & 1 == 1))) by (bit_vector);
       }
       Self::law_shift();
    }
    proof fn law_shift() {
       assert forall|a: Self, k: usize, i: int| k < Self::nb() implies #[trigger] ShlSpec::<usize>::shl_spec(a, k).bit(i) == (i < Self::nb() && a.bit(i - k)) by {
           if 0 <= i < 64 {
              let j = i as usize; let q = k as usize;
              assert(q == k);
              assert(q < 64 && j < 64 && j >= q ==> ((((a << q) >> j) & 1 == 1) <==> ((a >> ((j - q) as usize)) & 1 == 1))) by (bit_vector);
              assert(q < 64 && j < q ==> !(((a << q) >> j) & 1 == 1)) by (bit_vector);
           }
       }
       assert forall|a: Self, k: usize, i: int| k < Self::nb() implies #[trigger] ShrSpec::<usize>::shr_spec(a, k).bit(i) == (i >= 0 && a.bit(i + k)) by {
           if 0 <= i {
              if i < 64 { let j = i as usize; let q = k as usize;
              assert(q == k);
              assert(q < 64 && j < 64 && j + q < 64 ==> ((((a >> q) >> j) & 1 == 1) <==> ((a >> ((j + q) as usize)) & 1 == 1))) by (bit_vector);
              assert(q < 64 && j < 64 && j + q >= 64 ==> !(((a >> q) >> j) & 1 == 1)) by (bit_vector); }
           }
       }
    }
}

pub open spec fn bits_of<N: PrimInt>(x: N) -> Seq<bool> { Seq::new(N::nb(), |i: int| x.bit(i)) }
/// std: population count (discharged for every value by the Kani harnesses of the machine-integer laws)
//$ foreach TT,NN in u8,8 u16,16 u32,32 u64,64 usize,64
pub assume_specification [TT::count_ones](x: TT) -> (r: u32) ensures r == ones(bits_of(x), NN);
//$ end
// std operations the crate does not use today: their documented meaning, so that code which starts using them stays verifiable
//$ foreach TT,NN in u8,8 u16,16 u32,32 u64,64 usize,64
pub assume_specification [TT::max_value]() -> (r: TT) ensures r == TT::MAX opens_invariants none no_unwind;
pub assume_specification [TT::min_value]() -> (r: TT) ensures r == 0 opens_invariants none no_unwind;
pub assume_specification [TT::abs_diff](a: TT, b: TT) -> (r: TT) ensures r == (if a > b { a - b } else { b - a }) opens_invariants none no_unwind;
pub assume_specification [TT::checked_shl](a: TT, b: u32) -> (r: Option<TT>) ensures r == (if b < NN { Some(a << b) } else { None }) opens_invariants none no_unwind;
pub assume_specification [TT::checked_shr](a: TT, b: u32) -> (r: Option<TT>) ensures r == (if b < NN { Some(a >> b) } else { None }) opens_invariants none no_unwind;
pub assume_specification [TT::wrapping_neg](a: TT) -> (r: TT) ensures r == (if a == 0 { 0int } else { TT::MAX - a + 1 }) opens_invariants none no_unwind;
//$ end
pub assume_specification<T> [core::mem::replace](d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s opens_invariants none no_unwind;
pub assume_specification<T> [bool::then_some](a: bool, b: T) -> (r: Option<T>) ensures r == (if a { Some(b) } else { None }) opens_invariants none;
pub assume_specification<T> [Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b }) opens_invariants none;
/// std: the count of leading zeros of a usize is that of the same u64
pub assume_specification [usize::leading_zeros](x: usize) -> (r: u32) ensures r == vstd::std_specs::bits::u64_leading_zeros(x as u64);

/// x & mask != 0, for a mask with the single bit k
pub proof fn lemma_test_bit<N: PrimInt>(x: N, m: N, k: int)
    requires 0 <= k < N::nb(), forall|i: int| #[trigger] m.bit(i) == (i == k)
    ensures forall|z: N| (forall|i: int| !#[trigger] z.bit(i)) ==> ((#[trigger] x.bitand_spec(m).eq_spec(&z)) <==> !x.bit(k))
{
    N::laws();
    assert forall|z: N| (forall|i: int| !#[trigger] z.bit(i)) implies ((#[trigger] x.bitand_spec(m).eq_spec(&z)) <==> !x.bit(k)) by {
        let y = x.bitand_spec(m);
        if !x.bit(k) { N::law_ext(y, z); }
        else { assert(y.bit(k)); assert(!z.bit(k)); }
    }
}

pub proof fn lemma_divmod(nb: int, q: int, r: int)
    requires nb == 8 || nb == 16 || nb == 32 || nb == 64, 0 <= r < nb
    ensures (q * nb + r) / nb == q, (q * nb + r) % nb == r
{
    if nb == 8 { assert((q * 8 + r) / 8 == q && (q * 8 + r) % 8 == r); }
    else if nb == 16 { assert((q * 16 + r) / 16 == q && (q * 16 + r) % 16 == r); }
    else if nb == 32 { assert((q * 32 + r) / 32 == q && (q * 32 + r) % 32 == r); }
    else { assert((q * 64 + r) / 64 == q && (q * 64 + r) % 64 == r); }
}
pub proof fn lemma_divmod_all(nb: int)
    requires nb == 8 || nb == 16 || nb == 32 || nb == 64
    ensures forall|i: int| 0 <= #[trigger] (i % nb) < nb && i == (i / nb) * nb + i % nb,
{
    if nb == 8 {} else if nb == 16 {} else if nb == 32 {} else {}
    assert forall|i: int| 0 <= #[trigger] (i % nb) < nb && i == (i / nb) * nb + i % nb by {
        if nb == 8 { assert(i == (i / 8) * 8 + i % 8); } else if nb == 16 { assert(i == (i / 16) * 16 + i % 16); }
        else if nb == 32 { assert(i == (i / 32) * 32 + i % 32); } else { assert(i == (i / 64) * 64 + i % 64); }
    }
}
pub open spec fn cdiv(n: int, d: int) -> int { (n + d - 1) / d }
pub open spec fn isnb(nb: int) -> bool { nb == 8 || nb == 16 || nb == 32 || nb == 64 }
pub open spec fn max2(a: int, b: int) -> int { if a <= b { b } else { a } }
/// stand for & and | on bools (both sides evaluated)
pub fn vx_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn vx_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
/// R20: | & << >> == != on blocks
pub fn vx_eq<B: PrimInt>(a: B, b: B) -> (r: bool) ensures r == a.eq_spec(&b) { proof { B::laws(); } a == b }
pub fn vx_ne<B: PrimInt>(a: B, b: B) -> (r: bool) ensures r == !a.eq_spec(&b) { proof { B::laws(); } a != b }
pub fn vx_bitor<B: PrimInt>(a: B, b: B) -> (r: B) ensures r == a.bitor_spec(b) { proof { B::laws(); } a | b }
pub fn vx_bitand<B: PrimInt>(a: B, b: B) -> (r: B) ensures r == a.bitand_spec(b) { proof { B::laws(); } a & b }
pub fn vx_shl<B: PrimInt>(a: B, k: usize) -> (r: B) requires k < B::nb() ensures r == a.shl_spec(k) { proof { B::laws(); } a << k }
pub fn vx_shr<B: PrimInt>(a: B, k: usize) -> (r: B) requires k < B::nb() ensures r == a.shr_spec(k) { proof { B::laws(); } a >> k }
/// stands for std::cmp::min
pub fn vx_min(a: u64, b: u64) -> (r: u64) ensures r == min2(a as int, b as int) { if b < a { b } else { a } }
/// stands for std::cmp::max
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == max2(a as int, b as int) { if b < a { a } else { b } }
pub open spec fn min2(a: int, b: int) -> int { if a <= b { a } else { b } }

/// where bit p lives, and where a span that starts there ends
pub proof fn lemma_addr(nb: int, p: int, len: int)
    requires isnb(nb), 0 <= p < len
    ensures 0 <= p / nb < cdiv(len, nb), (p / nb) * nb + p % nb == p, 0 <= p % nb < nb, (p / nb) * nb <= p,
        p / nb + 1 < cdiv(len, nb) <==> (p / nb) * nb + nb < len,
        (p / nb + 1) * nb == (p / nb) * nb + nb,
{
    if nb == 8 { assert(p == (p / 8) * 8 + p % 8); } else if nb == 16 { assert(p == (p / 16) * 16 + p % 16); }
    else if nb == 32 { assert(p == (p / 32) * 32 + p % 32); } else { assert(p == (p / 64) * 64 + p % 64); }
}
proof fn lemma_blk8(b: int, len: int)
    requires 0 <= b, 0 <= len
    ensures b < cdiv(len, 8) <==> b * 8 < len, b + 1 == cdiv(len, 8) <==> b * 8 < len <= b * 8 + 8,
        b * 8 < len <= b * 8 + 8 ==> (len % 8 == 0 ==> len == b * 8 + 8) && (len % 8 != 0 ==> len == b * 8 + len % 8),
        cdiv(len, 8) >= 0, cdiv(len, 8) <= len
{ }
proof fn lemma_blk16(b: int, len: int)
    requires 0 <= b, 0 <= len
    ensures b < cdiv(len, 16) <==> b * 16 < len, b + 1 == cdiv(len, 16) <==> b * 16 < len <= b * 16 + 16,
        b * 16 < len <= b * 16 + 16 ==> (len % 16 == 0 ==> len == b * 16 + 16) && (len % 16 != 0 ==> len == b * 16 + len % 16),
        cdiv(len, 16) >= 0, cdiv(len, 16) <= len
{ }
proof fn lemma_blk32(b: int, len: int)
    requires 0 <= b, 0 <= len
    ensures b < cdiv(len, 32) <==> b * 32 < len, b + 1 == cdiv(len, 32) <==> b * 32 < len <= b * 32 + 32,
        b * 32 < len <= b * 32 + 32 ==> (len % 32 == 0 ==> len == b * 32 + 32) && (len % 32 != 0 ==> len == b * 32 + len % 32),
        cdiv(len, 32) >= 0, cdiv(len, 32) <= len
{ }
proof fn lemma_blk64(b: int, len: int)
    requires 0 <= b, 0 <= len
    ensures b < cdiv(len, 64) <==> b * 64 < len, b + 1 == cdiv(len, 64) <==> b * 64 < len <= b * 64 + 64,
        b * 64 < len <= b * 64 + 64 ==> (len % 64 == 0 ==> len == b * 64 + 64) && (len % 64 != 0 ==> len == b * 64 + len % 64),
        cdiv(len, 64) >= 0, cdiv(len, 64) <= len
{ }
/// the bits of block b
pub proof fn lemma_blk(nb: int, b: int, len: int)
    requires isnb(nb), 0 <= b, 0 <= len
    ensures b < cdiv(len, nb) <==> b * nb < len, b + 1 == cdiv(len, nb) <==> b * nb < len <= b * nb + nb,
        b * nb + nb == (b + 1) * nb, b * nb >= 0,
        b * nb < len <= b * nb + nb ==> (len % nb == 0 ==> len == b * nb + nb) && (len % nb != 0 ==> len == b * nb + len % nb),
        cdiv(len, nb) >= 0, cdiv(len, nb) <= len,
{
    assert(b * nb + nb == (b + 1) * nb && b * nb >= 0) by (nonlinear_arith) requires 0 <= b, 0 <= nb;
    if nb == 8 { assert(b * nb == b * 8); lemma_blk8(b, len); }
    if nb == 16 { assert(b * nb == b * 16); lemma_blk16(b, len); }
    if nb == 32 { assert(b * nb == b * 32); lemma_blk32(b, len); }
    if nb == 64 { assert(b * nb == b * 64); lemma_blk64(b, len); }
}

// ---------------------------------------------------------------- std::vec::Vec
/// capacity of a Vec (uninterpreted: only what the documentation of std promises is known)
pub uninterp spec fn vcap<T>(v: Vec<T>) -> nat;

/// std: a Vec never holds more than isize::MAX bytes, hence fewer than 2^63 elements of a type of one byte or more
#[verifier::external_body]
pub proof fn axiom_veclen(v: &Vec<bool>) ensures v@.len() < 0x8000_0000_0000_0000 {}


/// Trusted: std::vec::Vec behaves as documented.
pub trait VxVec<T>: Sized {
    fn vx_push(&mut self, x: T);
    fn vx_pop(&mut self) -> Option<T>;
    fn vx_truncate(&mut self, n: usize);
    fn vx_clear(&mut self);
    fn vx_resize(&mut self, n: usize, x: T) where T: Copy;
    fn vx_reserve(&mut self, n: usize);
    fn vx_reserve_exact(&mut self, n: usize);
    fn vx_shrink_to_fit(&mut self);
    fn vx_capacity(&self) -> usize;
    fn vx_last_mut(&mut self) -> Option<&mut T>;
    fn vx_is_empty(&self) -> bool;
}
impl<T> VxVec<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_push(&mut self, x: T)
        ensures final(self)@ == old(self)@.push(x), old(self)@.len() < vcap(*old(self)) ==> vcap(*final(self)) == vcap(*old(self)),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_pop(&mut self) -> (r: Option<T>)
        ensures vcap(*final(self)) == vcap(*old(self)),
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_truncate(&mut self, n: usize)
        ensures vcap(*final(self)) == vcap(*old(self)), final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_clear(&mut self)
        ensures vcap(*final(self)) == vcap(*old(self)), final(self)@ == Seq::<T>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_resize(&mut self, n: usize, x: T)
        ensures final(self)@ == Seq::new(n as nat, |i: int| if i < old(self)@.len() { old(self)@[i] } else { x }),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_reserve(&mut self, n: usize)
        ensures final(self)@ == old(self)@, vcap(*final(self)) >= old(self)@.len() + n, vcap(*final(self)) >= vcap(*old(self)),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_reserve_exact(&mut self, n: usize)
        ensures final(self)@ == old(self)@, vcap(*final(self)) >= old(self)@.len() + n, vcap(*final(self)) >= vcap(*old(self)),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_shrink_to_fit(&mut self)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_capacity(&self) -> (r: usize)
        ensures r == vcap(*self),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_last_mut(&mut self) -> (r: Option<&mut T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && *r->Some_0 == old(self)@.last()
                && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(r->Some_0)),
            vcap(*final(self)) == vcap(*old(self)),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_with_capacity<T>(n: usize) -> (r: Vec<T>)
    ensures r@ == Seq::<T>::empty(), vcap(r) >= n,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_from_elem<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@ == Seq::new(n as nat, |i: int| x),
{ unimplemented!() }
/// stands for vec![a, b, ...]
#[verifier::external_body]
pub fn vx_from_array<T, const N: usize>(a: [T; N]) -> (r: Vec<T>)
    ensures r@ == a@,
{ unimplemented!() }
/// stand for ==, clone and Hash::hash of a Vec of machine integers, and Hash::hash of a machine integer
#[verifier::external_body]
pub fn vx_vec_eq<B: PrimInt>(a: &Vec<B>, b: &Vec<B>) -> (r: bool)
    ensures r == (a@ == b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_vec_clone<B: PrimInt>(a: &Vec<B>) -> (r: Vec<B>)
    ensures r@ == a@,
{ unimplemented!() }
/// what a hasher is fed: machine integers, and vectors of blocks (each as its bits)
pub enum Fed { Int(u64), Blocks(nat, Seq<Seq<bool>>) }
pub trait VxHasher { spec fn fed(&self) -> Seq<Fed>; }
pub open spec fn fed_vec<B: PrimInt>(v: Seq<B>) -> Fed { Fed::Blocks(B::nb(), v.map_values(|x: B| bits_of(x))) }
#[verifier::external_body]
pub fn vx_hash_int<H: VxHasher>(x: u64, h: &mut H)
    ensures final(h).fed() == old(h).fed().push(Fed::Int(x)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_hash_vec<B: PrimInt, H: VxHasher>(v: &Vec<B>, h: &mut H)
    ensures final(h).fed() == old(h).fed().push(fed_vec(v@)),
{ unimplemented!() }
/// blocks with the same bits are the same blocks
pub proof fn lemma_blocks_ext<B: PrimInt>(a: Seq<B>, b: Seq<B>)
    requires a.len() == b.len(), forall|j: int| 0 <= j < a.len() * B::nb() ==> #[trigger] vbits(a)[j] == vbits(b)[j]
    ensures a == b
{
    lemma_vbits(a); lemma_vbits(b);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert forall|k: int| 0 <= k < B::nb() implies a[i].bit(k) == b[i].bit(k) by { B::law_nb(); if 0 <= k < B::nb() { assert(vbits(a)[i * B::nb() + k] == a[i].bit(k)); assert(vbits(b)[i * B::nb() + k] == b[i].bit(k)); } }
        B::law_ext(a[i], b[i]);
    }
    assert(a =~= b);
}
/// Assumption: no value occupies 2^57 bytes or more (the address space of every supported
/// machine is smaller), so the bits of a block vector number less than 2^60.
#[verifier::external_body]
pub proof fn axiom_phys<B: PrimInt>(v: &Vec<B>)
    ensures v@.len() * B::nb() < 0x1000_0000_0000_0000, vcap(*v) * B::nb() < 0x1000_0000_0000_0000, v@.len() <= vcap(*v), 
{}

//$ foreach NN in 8 16 32 64
proof fn lemma_cdiv_NN(n: int)
    requires 0 <= n
    ensures n <= cdiv(n, NN) * NN < n + NN, cdiv(n, NN) >= 0, n > 0 ==> cdiv(n, NN) > 0, 
        n % NN == 0 ==> cdiv(n, NN) * NN == n, n % NN != 0 ==> cdiv(n, NN) * NN == n - n % NN + NN,
{ assert(n == NN * (n / NN) + n % NN); }
//$ end
pub proof fn lemma_cdiv(n: int, nb: int)
    requires isnb(nb), 0 <= n
    ensures n <= cdiv(n, nb) * nb < n + nb, cdiv(n, nb) >= 0, n > 0 ==> cdiv(n, nb) > 0, 
        n % nb == 0 ==> cdiv(n, nb) * nb == n, n % nb != 0 ==> cdiv(n, nb) * nb == n - n % nb + nb,
{ if nb == 8 { lemma_cdiv_8(n); } else if nb == 16 { lemma_cdiv_16(n); } else if nb == 32 { lemma_cdiv_32(n); } else { lemma_cdiv_64(n); } }
//$ foreach NN in 8 16 32 64
proof fn lemma_cdiv_unique_NN(n: int, b: int)
    requires 0 <= n, n <= b * NN < n + NN
    ensures b == cdiv(n, NN)
{ lemma_cdiv_NN(n); }
//$ end
/// cdiv(n, nb) is the only number of blocks that holds n bits without a block to spare
pub proof fn lemma_cdiv_unique(n: int, nb: int, b: int)
    requires isnb(nb), 0 <= n, n <= b * nb < n + nb
    ensures b == cdiv(n, nb)
{ if nb == 8 { lemma_cdiv_unique_8(n, b); } else if nb == 16 { lemma_cdiv_unique_16(n, b); } else if nb == 32 { lemma_cdiv_unique_32(n, b); } else { lemma_cdiv_unique_64(n, b); } }
pub proof fn lemma_cdiv_mono(n: int, m: int, nb: int)
    requires isnb(nb), 0 <= n <= m
    ensures cdiv(n, nb) <= cdiv(m, nb)
{ if nb == 8 {} else if nb == 16 {} else if nb == 32 {} else {} }
pub proof fn lemma_mul_le(a: int, b: int, k: int)
    requires a <= b, 0 <= k
    ensures a * k <= b * k
{ assert(a * k <= b * k) by (nonlinear_arith) requires a <= b, 0 <= k; }
pub proof fn lemma_mul_succ(a: int, k: int)
    ensures (a + 1) * k == a * k + k, (a - 1) * k == a * k - k, k * (a + 1) == k * a + k, k * a == a * k
{ assert((a + 1) * k == a * k + k && (a - 1) * k == a * k - k && k * (a + 1) == k * a + k && k * a == a * k) by (nonlinear_arith); }

/// the bits of a sequence of blocks
pub open spec fn vbits<B: PrimInt>(v: Seq<B>) -> Seq<bool> {
    Seq::new(v.len() * B::nb(), |i: int| v[i / (B::nb() as int)].bit(i % (B::nb() as int)))
}
pub proof fn lemma_vbits<B: PrimInt>(v: Seq<B>)
    ensures vbits(v).len() == v.len() * B::nb(), isnb(B::nb() as int), cdiv(vbits(v).len() as int, B::nb() as int) == v.len(),
       forall|b: int, i: int| 0 <= b < v.len() && 0 <= i < B::nb() ==> vbits(v)[b * B::nb() + i] == #[trigger] v[b].bit(i),
       forall|b: int| 0 <= b < v.len() ==> 0 <= #[trigger] (b * B::nb()) && b * B::nb() + B::nb() <= v.len() * B::nb(),
{
    B::law_nb(); let nb = B::nb() as int;
    assert(cdiv(v.len() * nb, nb) == v.len()) by { if nb == 8 {} else if nb == 16 {} else if nb == 32 {} else {} }
    assert forall|b: int| 0 <= b < v.len() implies 0 <= #[trigger] (b * B::nb()) && b * B::nb() + B::nb() <= v.len() * B::nb() by {
        if nb == 8 {} else if nb == 16 {} else if nb == 32 {} else {} }
    assert forall|b: int, i: int| 0 <= b < v.len() && 0 <= i < B::nb() implies vbits(v)[b * B::nb() + i] == #[trigger] v[b].bit(i) by {
        lemma_divmod(nb, b, i); assert(b * B::nb() + B::nb() <= v.len() * B::nb());
    }
}
pub proof fn lemma_vbits_update<B: PrimInt>(v: Seq<B>, b: int, x: B)
    requires 0 <= b < v.len()
    ensures vbits(v.update(b, x)) =~= overwrite(vbits(v), b * B::nb(), B::nb() as int, |i: int| x.bit(i)),
{
    B::law_nb(); let nb = B::nb() as int; lemma_vbits(v); lemma_vbits(v.update(b, x));
    assert forall|j: int| 0 <= j < v.len() * nb implies vbits(v.update(b, x))[j] == overwrite(vbits(v), b * B::nb(), nb, |i: int| x.bit(i))[j] by {
        lemma_addr(nb, j, v.len() * nb); lemma_addr(nb, b * nb, v.len() * nb); 
        if j / nb == b {} else { if nb == 8 {} else if nb == 16 {} else if nb == 32 {} else {} }
    }
}
/// cutting n0 bits down to n: the bits from n on are cleared (mid) and the blocks past them dropped (v1)
pub proof fn lemma_vbits_prefix<B: PrimInt>(v: Seq<B>, k: int)
    requires 0 <= k <= v.len()
    ensures vbits(v.take(k)).len() == k * B::nb(), vbits(v).len() == v.len() * B::nb(), k * B::nb() <= v.len() * B::nb(),
        forall|j: int| 0 <= j < k * B::nb() ==> #[trigger] vbits(v.take(k))[j] == vbits(v)[j],
{
    B::law_nb(); let nb = B::nb() as int; lemma_mul_le(k, v.len() as int, nb); lemma_mul_le(0, k, nb);
    let w = v.take(k);
    assert forall|j: int| 0 <= j < k * nb implies #[trigger] vbits(w)[j] == vbits(v)[j] by {
        assert(0 <= j / nb < k) by (nonlinear_arith) requires 0 <= j < k * nb, nb > 0;
        assert(w[j / nb] == v[j / nb]);
    }
}
pub proof fn lemma_cut<B: PrimInt>(v0: Seq<B>, mid: Seq<B>, v1: Seq<B>, n0: int, n: int)
    requires 0 <= n <= n0 <= v0.len() * B::nb(), v0.len() == mid.len(),
        forall|j: int| 0 <= j < n ==> #[trigger] vbits(mid).take(n0)[j] == vbits(v0).take(n0)[j],
        forall|j: int| n <= j < n0 ==> !#[trigger] vbits(mid).take(n0)[j],
        forall|j: int| n0 <= j < mid.len() * B::nb() ==> !#[trigger] vbits(mid)[j],
        v1 == mid.take(cdiv(n, B::nb() as int)), cdiv(n, B::nb() as int) <= mid.len(),
    ensures n <= vbits(v1).len(), vbits(v1).take(n) =~= vbits(v0).take(n), vbits(v1).len() == v1.len() * B::nb(), v1.len() == cdiv(n, B::nb() as int),
        forall|j: int| n <= j < v1.len() * B::nb() ==> !#[trigger] vbits(v1)[j],
{
    B::law_nb(); let nb = B::nb() as int; lemma_cdiv(n, nb); lemma_vbits_prefix(mid, v1.len() as int); lemma_vbits_prefix(v0, v0.len() as int);
    assert forall|j: int| n <= j < v1.len() * B::nb() implies !#[trigger] vbits(v1)[j] by { assert(vbits(v1)[j] == vbits(mid)[j]); if j < n0 { assert(!vbits(mid).take(n0)[j]); } }
    assert forall|j: int| 0 <= j < n implies vbits(v1)[j] == #[trigger] vbits(v0)[j] by { assert(vbits(v1)[j] == vbits(mid)[j]); assert(vbits(mid).take(n0)[j] == vbits(v0).take(n0)[j]); }
}
} // verus!
} // mod vxp
pub mod num_traits {
    pub use crate::vxp::PrimInt;
    pub trait One {} pub trait Zero {}
    pub use crate::vxconv::ToPrimitive;
}
pub mod vxconv {
use vstd::prelude::*;
verus! {
pub trait ToPrimitive {
    spec fn as_int(&self) -> int;
    fn to_usize(&self) -> (r: Option<usize>)
        ensures 0 <= self.as_int() <= usize::MAX ==> r == Some(self.as_int() as usize), !(0 <= self.as_int() <= usize::MAX) ==> r is None;
    fn to_u64(&self) -> (r: Option<u64>)
        ensures 0 <= self.as_int() <= u64::MAX ==> r == Some(self.as_int() as u64), !(0 <= self.as_int() <= u64::MAX) ==> r is None;
}
impl ToPrimitive for u64 {
    open spec fn as_int(&self) -> int { *self as int }
    #[verifier::external_body]
    fn to_usize(&self) -> (r: Option<usize>) { Some(*self as usize) }
    #[verifier::external_body]
    fn to_u64(&self) -> (r: Option<u64>) { Some(*self as u64) }
}
impl ToPrimitive for usize {
    open spec fn as_int(&self) -> int { *self as int }
    #[verifier::external_body]
    fn to_usize(&self) -> (r: Option<usize>) { Some(*self as usize) }
    #[verifier::external_body]
    fn to_u64(&self) -> (r: Option<u64>) { Some(*self as u64) }
}
}
}

/// std::io::Read and Write with byteorder's extension methods: what their documentation says (R23). `rest` is what is still to be read, `sound` that
/// the source itself reports no error; `written` what was accepted so far, `accepts(n)` that the sink takes n bytes more without an error of its own.
pub mod vxio {
use vstd::prelude::*;
verus! {
use crate::num_traits::*;
use crate::vxp::*;
pub type Result<T> = std::io::Result<T>;
pub trait ByteOrder { spec fn big() -> bool; }
pub open spec fn is_bytes<N: PrimInt>(s: Seq<u8>, x: N, big: bool) -> bool {
    &&& s.len() == N::nb() / 8
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < 8 ==> #[trigger] s[i].bit(j) == x.bit(8 * (if big { s.len() - 1 - i } else { i }) + j)
}
pub open spec fn took<N: PrimInt>(a: Seq<u8>, b: Seq<u8>, sound: bool, r: Result<N>, big: bool) -> bool {
    &&& r is Ok ==> a.len() >= N::nb() / 8 && b == a.skip((N::nb() / 8) as int) && is_bytes(a.take((N::nb() / 8) as int), r->Ok_0, big)
    &&& sound && a.len() >= N::nb() / 8 ==> r is Ok
}
pub open spec fn gave<N: PrimInt>(a: Seq<u8>, b: Seq<u8>, accepts: bool, x: N, r: Result<()>, big: bool) -> bool {
    &&& r is Ok ==> b.len() == a.len() + N::nb() / 8 && b.take(a.len() as int) == a && is_bytes(b.skip(a.len() as int), x, big)
    &&& accepts ==> r is Ok
}
pub trait Read: Sized {
    spec fn rest(&self) -> Seq<u8>;
    spec fn sound(&self) -> bool;
    fn read_u8(&mut self) -> (r: Result<u8>) ensures forall|big: bool| #[trigger] took(old(self).rest(), final(self).rest(), old(self).sound(), r, big);
    fn read_u16<T: ByteOrder>(&mut self) -> (r: Result<u16>) ensures took(old(self).rest(), final(self).rest(), old(self).sound(), r, T::big());
    fn read_u32<T: ByteOrder>(&mut self) -> (r: Result<u32>) ensures took(old(self).rest(), final(self).rest(), old(self).sound(), r, T::big());
    fn read_u64<T: ByteOrder>(&mut self) -> (r: Result<u64>) ensures took(old(self).rest(), final(self).rest(), old(self).sound(), r, T::big());
}
pub trait Write: Sized {
    spec fn written(&self) -> Seq<u8>;
    spec fn accepts(&self, n: nat) -> bool;
    fn write_u8(&mut self, x: u8) -> (r: Result<()>) ensures forall|big: bool| #[trigger] gave(old(self).written(), final(self).written(), old(self).accepts(1), x, r, big);
    fn write_u16<T: ByteOrder>(&mut self, x: u16) -> (r: Result<()>) ensures gave(old(self).written(), final(self).written(), old(self).accepts(2), x, r, T::big());
    fn write_u32<T: ByteOrder>(&mut self, x: u32) -> (r: Result<()>) ensures gave(old(self).written(), final(self).written(), old(self).accepts(4), x, r, T::big());
    fn write_u64<T: ByteOrder>(&mut self, x: u64) -> (r: Result<()>) ensures gave(old(self).written(), final(self).written(), old(self).accepts(8), x, r, T::big());
}
pub proof fn lemma_usize_bytes()
    ensures forall|x: u64, s: Seq<u8>, big: bool| #[trigger] is_bytes(s, x, big) ==> is_bytes(s, x as usize, big), forall|x: usize, s: Seq<u8>, big: bool| #[trigger] is_bytes(s, x as u64, big) ==> is_bytes(s, x, big)
{
    assert forall|x: u64, i: int| #[trigger] x.bit(i) == (x as usize).bit(i) by { if 0 <= i < 64 { let k = i as u64; let ku = i as usize; let xu = x as usize;
        assert(((x >> k) & 1 == 1) == ((xu >> ku) & 1 == 1)) by (bit_vector) requires xu == x as usize, ku == k as usize; } }
    assert forall|x: u64, s: Seq<u8>, big: bool| #[trigger] is_bytes(s, x, big) implies is_bytes(s, x as usize, big) by {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < 8 implies #[trigger] s[i].bit(j) == (x as usize).bit(8 * (if big { s.len() - 1 - i } else { i }) + j) by { assert(x.bit(8 * (if big { s.len() - 1 - i } else { i }) + j) == (x as usize).bit(8 * (if big { s.len() - 1 - i } else { i }) + j)); }
    }
    assert forall|x: usize, s: Seq<u8>, big: bool| #[trigger] is_bytes(s, x as u64, big) implies is_bytes(s, x, big) by { assert((x as u64) as usize == x); }
}
}
}

//@ include
storage
rank::traits
bit_vec::traits
bit_vec
internal::vector_base
internal

//@ skip
trait=Debug
trait=Binary
trait=Eq
trait=Ord
trait=PartialOrd
trait=StructuralPartialEq
