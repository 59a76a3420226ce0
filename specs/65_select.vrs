//@ include
internal::search
select
select::traits
select::bin_search
//@ use internal::search
use crate::vxp::*;
//@ fn internal::search::average
//@ sig
fn average(x: u64, y: u64) -> (r: u64)
//@ fn internal::search::average
ensures r as int == (x + y) / 2
//@ subst
P\s*::\s*one\s*\(\) => 1u64
//@ entry
proof { assert(x >> 1 == x / 2 && x & 1 == x % 2 && y >> 1 == y / 2 && y & 1 == y % 2) by (bit_vector); 
  let s: u64 = ((x & 1) + (y & 1)) as u64; assert(s >> 1 == s / 2) by (bit_vector); }
//@ fn internal::search::binary_search_function
//@ attrs
#[verifier::loop_isolation(false)]
//@ sig
fn binary_search_function<F: Fn(u64) -> u64>(mut start: u64, mut limit: u64, value: u64, f: F) -> (r: Option<u64>)
//@ fn internal::search::binary_search_function
requires forall|i: u64| start <= i < limit ==> #[trigger] f.requires((i,)),
    // the function searched is a function, and does not decrease
    forall|i: u64, j: u64, a: u64, b: u64| start <= i <= j < limit && #[trigger] f.ensures((i,), a) && #[trigger] f.ensures((j,), b) ==> a <= b,
ensures
    r is Some ==> start <= r->Some_0 < limit && (exists|v: u64| #[trigger] f.ensures((r->Some_0,), v) && v >= value)
        && (r->Some_0 > start ==> exists|j: u64, u: u64| j + 1 == r->Some_0 && #[trigger] f.ensures((j,), u) && u < value),
    r is None ==> start >= limit || exists|j: u64, v: u64| j + 1 == limit && #[trigger] f.ensures((j,), v) && v < value,
//@ subst
D\s*::\s*one\s*\(\) => 1u64
//@ entry
let ghost start0 = start; let ghost limit0 = limit;
//@ loop 0
invariant start0 < start <= limit <= limit0,
    forall|i: u64| start0 <= i < limit0 ==> #[trigger] f.requires((i,)),
    forall|i: u64, j: u64, a: u64, b: u64| start0 <= i <= j < limit0 && #[trigger] f.ensures((i,), a) && #[trigger] f.ensures((j,), b) ==> a <= b,
    exists|j: u64, u: u64| j + 1 == start && #[trigger] f.ensures((j,), u) && u < value,
    limit < limit0 ==> exists|j: u64, u: u64| j + 1 == limit && #[trigger] f.ensures((j,), u) && u >= value,
decreases limit - start

//@ trait select::traits::Select1Support
    spec fn wf_s1(&self) -> bool;
    spec fn limit1(&self) -> nat;
    /// ones among the first n bits
    spec fn occ1(&self, n: int) -> nat;
//@ fn select::traits::Select1Support::select1
requires self.wf_s1()
ensures r is Some ==> r->Some_0 < self.limit1() && self.occ1(r->Some_0 as int) == index && self.occ1(r->Some_0 + 1) == index + 1,
    r is None ==> self.occ1(self.limit1() as int) <= index
//@ trait select::traits::Select0Support
    spec fn wf_s0(&self) -> bool;
    spec fn limit0(&self) -> nat;
    spec fn occ0(&self, n: int) -> nat;
//@ fn select::traits::Select0Support::select0
requires self.wf_s0()
ensures r is Some ==> r->Some_0 < self.limit0() && self.occ0(r->Some_0 as int) == index && self.occ0(r->Some_0 + 1) == index + 1,
    r is None ==> self.occ0(self.limit0() as int) <= index
//@ trait select::traits::SelectSupport
    spec fn wf_s(&self) -> bool;
    spec fn limit_s(&self) -> nat;
    spec fn occ_s(&self, v: Self::Over, n: int) -> nat;
//@ fn select::traits::SelectSupport::select
requires self.wf_s()
ensures r is Some ==> r->Some_0 < self.limit_s() && self.occ_s(value, r->Some_0 as int) == index && self.occ_s(value, r->Some_0 + 1) == index + 1,
    r is None ==> self.occ_s(value, self.limit_s() as int) <= index

//@ use select::bin_search
use crate::space_usage::*;
use std::mem;
use crate::vxp::*;
use crate::internal::search::binary_search_function;
use crate::rank::traits::{BitRankSupport, RankSupport};
use crate::bit_vec::traits::BitVec;
use crate::storage::BlockType;
use crate::select::traits::{SelectSupport, Select1Support, Select0Support};
//@ mod select::bin_search
/// the counts of a rank structure do not decrease, and stay below the position
pub proof fn lemma_occ_mono<R: RankSupport>(r: &R, v: R::Over, a: int, b: int)
    requires r.wf_rank(), 0 <= a <= b <= r.rank_limit()
    ensures r.occ(v, a) <= r.occ(v, b) <= r.occ(v, a) + (b - a)
    decreases b - a
{ r.law_occ(v); if a < b { lemma_occ_mono(r, v, a, b - 1); assert(r.occ(v, b - 1) <= r.occ(v, b - 1 + 1) <= r.occ(v, b - 1) + 1); } }
pub proof fn lemma_mono_all<R: RankSupport>(r: &R, v: R::Over)
    requires r.wf_rank()
    ensures forall|a: int, b: int| 0 <= a <= b <= r.rank_limit() ==> #[trigger] r.occ(v, a) <= #[trigger] r.occ(v, b) <= r.occ(v, a) + (b - a), r.occ(v, 0) == 0, r.rank_limit() <= u64::MAX, r.occ(v, r.rank_limit() as int) <= u64::MAX,
{ r.law_occ(v); lemma_occ_mono(r, v, 0, r.rank_limit() as int); assert forall|a: int, b: int| 0 <= a <= b <= r.rank_limit() implies #[trigger] r.occ(v, a) <= #[trigger] r.occ(v, b) <= r.occ(v, a) + (b - a) by { lemma_occ_mono(r, v, a, b); } }
//@ impl select::bin_search::<BinSearchSelect<Rank>asBitVec>
    open spec fn wf(&self) -> bool { self.rank_support.wf() }
    open spec fn bits(&self) -> Seq<bool> { self.rank_support.bits() }
    proof fn law_bits(&self) { self.rank_support.law_bits(); }
//@ impl select::bin_search::<BinSearchSelect<Rank>asRankSupport>
    open spec fn wf_rank(&self) -> bool { self.rank_support.wf_rank() }
    open spec fn rank_limit(&self) -> nat { self.rank_support.rank_limit() }
    open spec fn occ(&self, v: Rank::Over, n: int) -> nat { self.rank_support.occ(v, n) }
    proof fn law_occ(&self, v: Rank::Over) { self.rank_support.law_occ(v); 
       assert forall|i: int| 0 <= i < self.rank_limit() implies #[trigger] self.occ(v, i) <= self.occ(v, i + 1) <= self.occ(v, i) + 1 by { assert(self.rank_support.occ(v, i) <= self.rank_support.occ(v, i + 1)); } }
//@ impl select::bin_search::<BinSearchSelect<Rank>asBitRankSupport>
    proof fn law_bitocc(&self, n: int) { self.rank_support.law_bitocc(n); }
//@ impl select::bin_search::<BinSearchSelect<Rank>asSelect1Support>
    open spec fn wf_s1(&self) -> bool { self.rank_support.wf_rank() }
    open spec fn limit1(&self) -> nat { self.rank_support.rank_limit() }
    open spec fn occ1(&self, n: int) -> nat { self.rank_support.occ(true, n) }
//@ impl select::bin_search::<BinSearchSelect<Rank>asSelect0Support>
    open spec fn wf_s0(&self) -> bool { self.rank_support.wf_rank() }
    open spec fn limit0(&self) -> nat { self.rank_support.rank_limit() }
    open spec fn occ0(&self, n: int) -> nat { self.rank_support.occ(false, n) }
//@ impl select::bin_search::<BinSearchSelect<Rank>asSelectSupport>
    open spec fn wf_s(&self) -> bool { self.rank_support.wf_rank() }
    open spec fn limit_s(&self) -> nat { self.rank_support.rank_limit() }
    open spec fn occ_s(&self, v: Rank::Over, n: int) -> nat { self.rank_support.occ(v, n) }
//@ fn select::bin_search::BinSearchSelect::new
ensures r.rank_support == rank_support
//@ fn select::bin_search::BinSearchSelect::inner
ensures *r == self.rank_support
//@ fn select::bin_search::BinSearchSelect::into_inner
ensures r == self.rank_support
//@ fn select::bin_search::<BinSearchSelect<Rank>asSelect1Support>::select1
//@ entry
proof { lemma_mono_all(self, true); }
//@ closure 0
|i: u64| -> (r: u64) requires self.wf_rank(), i < self.rank_limit() ensures r == self.occ(true, i + 1)
//@ fn select::bin_search::<BinSearchSelect<Rank>asSelect0Support>::select0
//@ entry
proof { lemma_mono_all(self, false); }
//@ closure 0
|i: u64| -> (r: u64) requires self.wf_rank(), i < self.rank_limit() ensures r == self.occ(false, i + 1)
//@ fn select::bin_search::<BinSearchSelect<Rank>asSelectSupport>::select
//@ entry
proof { lemma_mono_all(self, value); }
//@ closure 0
|i: u64| -> (r: u64) requires self.wf_rank(), i < self.rank_limit() ensures r == self.occ(value, i + 1)
