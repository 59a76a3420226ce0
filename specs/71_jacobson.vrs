//@ include
rank::jacobson
//@ use rank::jacobson
use crate::space_usage::*;
use std::mem;
use crate::vxp::*;
use crate::vxp::vx_max as max;
use crate::num_traits::*;
use crate::rank::traits::*;
use crate::bit_vec::traits::BitVec;
use crate::int_vec::traits::{IntVec, low, fits, shows};
use crate::int_vec::int_vector::IntVector;
use crate::storage::{Address, BlockType};
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::bits::*;
//@ mod rank::jacobson
/// element x of a table of w-bit numbers holds v
pub open spec fn holds(x: Seq<bool>, v: int, w: nat) -> bool { 0 <= v <= u64::MAX && fits::<u64>(v as u64, w as int) && x == low::<u64>(v as u64, w) }
/// the entries for small block k, where a large block is spl small blocks of nb bits
pub open spec fn entry_ok(s: Seq<bool>, nb: int, spl: int, large: Seq<Seq<bool>>, lw: nat, small: Seq<Seq<bool>>, sw: nat, k: int) -> bool {
    0 <= k / spl < large.len() && k < small.len()
    && holds(large[k / spl], ones(s, (k / spl) * spl * nb) as int, lw)
    && holds(small[k], ones(s, k * nb) - ones(s, (k / spl) * spl * nb), sw)
}
pub open spec fn entries_ok(s: Seq<bool>, nb: int, spl: int, large: Seq<Seq<bool>>, lw: nat, small: Seq<Seq<bool>>, sw: nat, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> #[trigger] entry_ok(s, nb, spl, large, lw, small, sw, k)
}
impl<Store: BitVec> JacobsonRank<Store> {
    pub open spec fn spl(&self) -> int { self.large_block_size as int / Store::Block::nb() as int }
    pub open spec fn wf_jr(&self) -> bool {
        let nb = Store::Block::nb() as int;
        self.bit_store.wf() && self.large_block_ranks.iwf() && self.small_block_ranks.iwf()
        && self.large_block_size == self.spl() * nb && self.spl() >= 1
        && entries_ok(self.bit_store.bits(), nb, self.spl(), self.large_block_ranks.elems(), self.large_block_ranks.width(), self.small_block_ranks.elems(), self.small_block_ranks.width(), cdiv(self.bit_store.bits().len() as int, nb))
    }
}
proof fn lemma_fits(v: u64, w: nat)
    requires w <= 64, v < pow2(w)
    ensures fits::<u64>(v, w as int)
{
    assert forall|i: int| w <= i < 64 implies !#[trigger] v.bit(i) by {
        let k = i as u64;
        lemma_u64_shr_is_div(v, k);
        if w < i { lemma_pow2_strictly_increases(w, i as nat); }
        lemma_pow2_pos(i as nat);
        assert(v as int / pow2(i as nat) as int == 0) by { lemma_basic_div(v as int, pow2(i as nat) as int); }
        assert(v >> k == 0);
        assert(0u64 & 1 == 0) by (bit_vector);
    }
}
proof fn lemma_holds<B: PrimInt>(x: Seq<bool>, v: B, w: nat, r: B)
    requires fits(v, w as int), x == low(v, w), w <= B::nb(), shows(r, x, w)
    ensures r == v
{
    assert forall|i: int| 0 <= i < B::nb() implies r.bit(i) == v.bit(i) by { if i < w { assert(x[i] == v.bit(i)); } }
    B::law_ext(r, v);
}
proof fn lemma_divq(i: int, q: int, r: int, d: int)
    requires 0 <= r < d, i == q * d + r
    ensures i / d == q, i % d == r
{ lemma_fundamental_div_mod_converse(i, d, q, r); }
proof fn lemma_ones_zero(s: Seq<bool>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|i: int| a <= i < b ==> !s[i]
    ensures ones(s, a) == ones(s, b)
    decreases b - a
{ if a < b { lemma_ones_zero(s, a, b - 1); } }
/// the block read at small block k, masked to the n bits that are in the vector
proof fn lemma_count<B: BlockType>(s: Seq<bool>, a: int, x: B, n: int)
    requires 0 <= a, 0 <= n <= B::nb(), a + n <= s.len(), forall|i: int| #[trigger] x.bit(i) ==> i < n, forall|i: int| 0 <= i < n ==> #[trigger] x.bit(i) == s[a + i]
    ensures ones(s, a + n) == ones(s, a) + ones(bits_of(x), B::nb() as int)
{
    lemma_ones_shift(s, a, bits_of(x), n);
    lemma_ones_zero(bits_of(x), n, B::nb() as int);
}
proof fn lemma_entries_push(s: Seq<bool>, nb: int, spl: int, large: Seq<Seq<bool>>, lw: nat, small: Seq<Seq<bool>>, sw: nat, n: int, large2: Seq<Seq<bool>>, small2: Seq<Seq<bool>>)
    requires entries_ok(s, nb, spl, large, lw, small, sw, n), spl >= 1,
       large2.len() >= large.len(), forall|j: int| 0 <= j < large.len() ==> large2[j] == large[j],
       small2.len() >= small.len(), forall|j: int| 0 <= j < small.len() ==> small2[j] == small[j],
    ensures entries_ok(s, nb, spl, large2, lw, small2, sw, n)
{
    assert forall|k: int| 0 <= k < n implies #[trigger] entry_ok(s, nb, spl, large2, lw, small2, sw, k) by { assert(entry_ok(s, nb, spl, large, lw, small, sw, k)); }
}

proof fn lemma_sq_all()
    ensures forall|a: int| 0 <= a <= 64 ==> 0 <= #[trigger] (a * a) <= 4096
{ assert forall|a: int| 0 <= a <= 64 implies 0 <= #[trigger] (a * a) <= 4096 by { assert(0 <= a * a <= 4096) by (nonlinear_arith) requires 0 <= a <= 64; } }
//@ fn rank::jacobson::JacobsonRank::new
//@ attrs
#[verifier::rlimit(60)]
//@ fn rank::jacobson::JacobsonRank::new
requires bits.wf(), bits.bits().len() < 0x1000_0000_0000_0000
ensures r.wf_jr(), r.bit_store == bits
//@ entry
let ghost s = bits.bits();
let ghost nb = Store::Block::nb() as int;
let ghost nblk = cdiv(s.len() as int, nb);
proof { bits.law_bits(); <Store::Block as PrimInt>::law_nb(); lemma_blk(nb, 0, s.len() as int); lemma_ones_bound(s, 0); }
//@ before ceil_lg 1
let ghost spl = small_per_large as int;
proof { assert(lg_n * lg_n <= 4096) by (nonlinear_arith) requires lg_n <= 64; 
   assert(large_block_size == spl * nb) by (nonlinear_arith) requires large_block_size == small_block_size * small_per_large, spl == small_per_large, nb == small_block_size;
   assert(large_block_size >= nb) by (nonlinear_arith) requires large_block_size == spl * nb, spl >= 1, nb >= 1;
   lemma_div_is_ordered_by_denominator(n as int, 8, large_block_size as int); lemma_div_is_ordered_by_denominator(n as int, 8, nb); }
//@ before ceil_lg 0
proof { lemma_sq_all(); }
//@ before nbits 0
proof { assert(lg2_n <= 4096); }
//@ before max 0
proof { assert(cdiv(lg2_n as int, nb) <= lg2_n + nb) by { if nb == 8 {} else if nb == 16 {} else if nb == 32 {} else {} } }
//@ before with_capacity 0
let ghost lw = large_meta_size as nat;
let ghost sw = small_meta_size as nat;
proof { 
   lemma_pow2_upto(lw);
   assert(sw >= 1) by { if sw == 0 { lemma2_to64(); } }
   assert(n < pow2(lw)); assert(large_block_size < pow2(sw));
   assert(large_block_count * large_meta_size <= u64::MAX) by (nonlinear_arith) requires 0 <= large_block_count <= 0x0300_0000_0000_0000, 0 <= large_meta_size <= 64;
   assert(small_block_count * small_meta_size <= u64::MAX) by (nonlinear_arith) requires 0 <= small_block_count <= 0x0300_0000_0000_0000, 0 <= small_meta_size <= 64;
}
//@ loop 0
invariant bits.wf(), s == bits.bits(), nb == Store::Block::nb(), isnb(nb), nblk == cdiv(s.len() as int, nb), vx_e0 == nblk, vx_i0 <= nblk, n == s.len(), n < 0x1000_0000_0000_0000,
    spl == small_per_large, spl >= 1, large_block_size == spl * nb, n < pow2(lw), large_block_size < pow2(sw), 1 <= lw <= 64, 1 <= sw <= 64,
    large_block_ranks.iwf(), small_block_ranks.iwf(), large_block_ranks.width() == lw, small_block_ranks.width() == sw,
    small_block_ranks.elems().len() == vx_i0, small_block_index < spl,
    place(vx_i0 as int, large_block_ranks.elems().len() as int, spl, small_block_index as int),
    last_large_rank <= current_rank,
    large_block_ranks.elems().len() > 0 ==> holds(large_block_ranks.elems()[large_block_ranks.elems().len() - 1], last_large_rank as int, lw),
    last_large_rank == (if large_block_ranks.elems().len() == 0 { 0nat } else { ones(s, (large_block_ranks.elems().len() - 1) * spl * nb) }),
    current_rank == ones(s, min2(vx_i0 * nb, s.len() as int)),
    entries_ok(s, nb, spl, large_block_ranks.elems(), lw, small_block_ranks.elems(), sw, vx_i0 as int),
decreases vx_e0 - vx_i0
//@ pre 0
proof { assert(place(0, 0, spl, 0)) by { reveal(place); } lemma_blk(nb, 0, s.len() as int); }
//@ before push 0
let ghost l0 = large_block_ranks.elems();
proof { lemma_place(i as int, l0.len() as int, spl, 0); lemma_at(s, nb, spl, i as int, l0.len() as int, 0); lemma_fits(current_rank, lw); }
//@ after push 0
proof { lemma_entries_push(s, nb, spl, l0, lw, small_block_ranks.elems(), sw, i as int, large_block_ranks.elems(), small_block_ranks.elems()); }
//@ before push 1
let ghost s0 = small_block_ranks.elems();
let ghost q = large_block_ranks.elems().len() as int; let ghost j0 = small_block_index as int;
proof { if j0 > 0 { lemma_place(i as int, q, spl, j0); } lemma_at(s, nb, spl, i as int, q - 1, small_block_index as int); lemma_fits(excess_rank, sw); }
//@ after push 1
proof { lemma_entries_push(s, nb, spl, large_block_ranks.elems(), lw, s0, sw, i as int, large_block_ranks.elems(), small_block_ranks.elems());
   assert(entry_ok(s, nb, spl, large_block_ranks.elems(), lw, small_block_ranks.elems(), sw, i as int));
   assert(entries_ok(s, nb, spl, large_block_ranks.elems(), lw, small_block_ranks.elems(), sw, i + 1));
   lemma_blk(nb, i as int, s.len() as int); lemma_mul_succ(i as int, nb); lemma_next_index(small_block_index as int, spl); }
//@ before count_ones 0
proof { Store::Block::laws(); assert(i * nb + block_bits == min2((i + 1) * nb, s.len() as int));
   lemma_count(s, i * nb, block, block_bits as int); lemma_ones_bound(s, i * nb + block_bits); lemma_mul_succ(q, spl); lemma_mul_succ(q - 1, spl); }
//@ loopend 0
proof { assert(current_rank == ones(s, min2((i + 1) * nb, s.len() as int)));
   lemma_place_step(i as int, q, spl, j0); }
//@ before push 2
let ghost l1 = large_block_ranks.elems();
let ghost s1 = small_block_ranks.elems();
proof { lemma_end(s, nb, spl, nblk, l1.len() as int, small_block_index as int, current_rank, last_large_rank, lw, sw); }
//@ before push 3
proof { lemma_entries_push(s, nb, spl, l1, lw, s1, sw, nblk, large_block_ranks.elems(), s1); }
//@ after push 3
proof { lemma_entries_push(s, nb, spl, large_block_ranks.elems(), lw, s1, sw, nblk, large_block_ranks.elems(), small_block_ranks.elems());
   assert(large_block_size as int / nb == spl) by { lemma_divq(large_block_size as int, spl, 0, nb); } }
//@ mod rank::jacobson
proof fn lemma_next_index(x: int, n: int)
    requires 0 <= x < n
    ensures (x + 1) % n == (if x + 1 == n { 0 } else { x + 1 })
{ if x + 1 == n { lemma_mod_self_0(n); } else { lemma_small_mod((x + 1) as nat, n as nat); } }
/// lemma_at where the last block may reach past the end
proof fn lemma_at2(s: Seq<bool>, nb: int, spl: int, i: int, q: int, j: int)
    requires isnb(nb), spl >= 1, 1 <= j <= spl, i == q * spl + j, q >= 0, (i - 1) * nb < s.len() <= i * nb
    ensures ones(s, q * spl * nb) <= ones(s, s.len() as int), ones(s, s.len() as int) - ones(s, q * spl * nb) <= spl * nb
{
    lemma_at(s, nb, spl, i - 1, q, j - 1);
    lemma_mul_succ(i, nb); lemma_mul_succ(j, nb);
    lemma_ones_mono(s, (i - 1) * nb, s.len() as int);
    assert(j * nb <= spl * nb) by (nonlinear_arith) requires j <= spl, nb >= 1;
}
/// the low n bits of x are those of s at a
pub open spec fn agrees<B: BlockType>(x: B, s: Seq<bool>, a: int, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] x.bit(i) == s[a + i] }
/// what the block read at a adds to a rank
proof fn lemma_words<B: BlockType>(s: Seq<bool>, a: int, n: int)
    requires 0 <= a, 0 <= n <= B::nb(), a + n <= s.len()
    ensures forall|x: B| #![trigger x.wf_rank()] #![trigger x.rank_limit()] x.wf_rank() && x.rank_limit() == B::nb() && (agrees(x, s, a, n) ==> ones(s, a + n) == ones(s, a) + x.occ(true, n))
{
    assert forall|x: B| #![trigger x.wf_rank()] #![trigger x.rank_limit()] x.wf_rank() && x.rank_limit() == B::nb() && (agrees(x, s, a, n) ==> ones(s, a + n) == ones(s, a) + x.occ(true, n)) by {
        x.law_rank(n);
        if agrees(x, s, a, n) { lemma_ones_shift(s, a, bits_of(x), n); }
    }
}
//@ fn rank::jacobson::<JacobsonRank<Store>asBitRankSupport>::rank1
//@ entry
let ghost s = self.bit_store.bits();
let ghost nb = Store::Block::nb() as int;
let ghost p = position as int;
let ghost k = p / nb;
proof { self.bit_store.law_bits(); <Store::Block as PrimInt>::law_nb(); 
   assert(self.large_block_size >= nb) by (nonlinear_arith) requires self.large_block_size == self.spl() * nb, self.spl() >= 1, nb >= 1;
   if p < s.len() {
     lemma_addr(nb, p, s.len() as int);
     lemma_div_denominator(p, nb, self.spl()); 
     assert(nb * self.spl() == self.large_block_size) by (nonlinear_arith) requires self.large_block_size == self.spl() * nb;
     assert(entry_ok(s, nb, self.spl(), self.large_block_ranks.elems(), self.large_block_ranks.width(), self.small_block_ranks.elems(), self.small_block_ranks.width(), k));
     lemma_words::<Store::Block>(s, k * nb, p % nb + 1); lemma_ones_bound(s, p + 1);
     self.large_block_ranks.law_elems(); self.small_block_ranks.law_elems();
   } }
//@ before get_block 0
proof { self.large_block_ranks.lemma_iv(); self.small_block_ranks.lemma_iv(); lemma_holds(self.large_block_ranks.elems()[k / self.spl()], ones(s, (k / self.spl()) * self.spl() * nb) as u64, self.large_block_ranks.width(), large_rank);
   lemma_holds(self.small_block_ranks.elems()[k], (ones(s, k * nb) - ones(s, (k / self.spl()) * self.spl() * nb)) as u64, self.small_block_ranks.width(), small_rank);
}
//@ mod rank::jacobson
/// block i of the vector, when q large blocks have been entered and j small blocks of the current one
#[verifier::opaque]
pub open spec fn place(i: int, q: int, spl: int, j: int) -> bool { if j == 0 { i == q * spl } else { q >= 1 && i == (q - 1) * spl + j } }
proof fn lemma_at(s: Seq<bool>, nb: int, spl: int, i: int, q: int, j: int)
    requires isnb(nb), spl >= 1, 0 <= j <= spl, i == q * spl + j, q >= 0, i * nb <= s.len()
    ensures q * spl * nb <= i * nb, ones(s, q * spl * nb) <= ones(s, i * nb) <= s.len(), ones(s, i * nb) - ones(s, q * spl * nb) <= j * nb <= spl * nb,
        i * nb >= 0, j < spl ==> i / spl == q
{
    assert(0 <= q * spl * nb) by (nonlinear_arith) requires q >= 0, spl >= 1, nb >= 1;
    assert(q * spl * nb + j * nb == i * nb) by (nonlinear_arith) requires i == q * spl + j;
    assert(0 <= j * nb <= spl * nb) by (nonlinear_arith) requires 0 <= j <= spl, nb >= 1;
    lemma_ones_mono(s, q * spl * nb, i * nb); lemma_ones_bound(s, i * nb);
    if j < spl { lemma_divq(i, q, j, spl); }
}
/// after the loop: the totals fit the two tables
proof fn lemma_end(s: Seq<bool>, nb: int, spl: int, nblk: int, ql: int, j: int, cur: u64, last: u64, lw: nat, sw: nat)
    requires isnb(nb), spl >= 1, nblk == cdiv(s.len() as int, nb), 0 <= j < spl, ql >= 0, place(nblk, ql, spl, j), lw <= 64, sw <= 64, s.len() < pow2(lw), spl * nb < pow2(sw),
        cur == ones(s, min2(nblk * nb, s.len() as int)), last <= cur,
        last == (if ql == 0 { 0nat } else { ones(s, (ql - 1) * spl * nb) })
    ensures fits::<u64>(cur, lw as int), fits::<u64>((cur - last) as u64, sw as int), cur == ones(s, s.len() as int)
{
    reveal(place);
    let n = s.len() as int;
    lemma_blk(nb, 0, n); lemma_ones_bound(s, n);
    if nblk > 0 { lemma_blk(nb, nblk - 1, n); lemma_mul_succ(nblk - 1, nb);
        if j == 0 { assert(ql >= 1) by { if ql == 0 { assert(ql * spl == 0); } } lemma_mul_succ(ql - 1, spl); lemma_at2(s, nb, spl, nblk, ql - 1, spl); }
        else { lemma_at2(s, nb, spl, nblk, ql - 1, j); }
    } else if ql > 0 { 
        if j == 0 { assert(ql * spl >= 1) by (nonlinear_arith) requires ql >= 1, spl >= 1; }
        else { assert((ql - 1) * spl >= 0) by (nonlinear_arith) requires ql >= 1, spl >= 1; }
    }
    lemma_fits(cur, lw);
    if ql == 0 { assert(nblk <= 0); }
    lemma_fits((cur - last) as u64, sw);
}
proof fn lemma_place(i: int, q: int, spl: int, j: int)
    requires place(i, q, spl, j), 0 <= j < spl, q >= 0
    ensures j == 0 ==> i == q * spl && i == (q + 1 - 1) * spl, j > 0 ==> q >= 1 && i == (q - 1) * spl + j,
{ reveal(place); }
proof fn lemma_place_step(i: int, q: int, spl: int, j: int)
    requires q >= 1, i == (q - 1) * spl + j, 0 <= j < spl
    ensures j + 1 == spl ==> place(i + 1, q, spl, 0), j + 1 < spl ==> place(i + 1, q, spl, j + 1)
{ reveal(place); lemma_mul_succ(q - 1, spl); }
proof fn lemma_pow2_upto(w: nat)
    ensures forall|a: nat| a <= w ==> #[trigger] pow2(a) <= pow2(w)
{ assert forall|a: nat| a <= w implies #[trigger] pow2(a) <= pow2(w) by { if a < w { lemma_pow2_strictly_increases(a, w); } } }

//@ impl rank::jacobson::<JacobsonRank<Store>asRankSupport>
    open spec fn wf_rank(&self) -> bool { self.wf_jr() }
    open spec fn rank_limit(&self) -> nat { self.bit_store.bits().len() }
    open spec fn occ(&self, v: bool, n: int) -> nat { if v { ones(self.bit_store.bits(), n) } else { (n - ones(self.bit_store.bits(), n)) as nat } }
    proof fn law_occ(&self, v: bool) { self.bit_store.law_bits(); let s = self.bit_store.bits();
        assert forall|i: int| 0 <= i < self.rank_limit() implies #[trigger] self.occ(v, i) <= self.occ(v, i + 1) <= self.occ(v, i) + 1 by {
            lemma_ones_bound(s, i); lemma_ones_bound(s, i + 1); } }
//@ impl rank::jacobson::<JacobsonRank<Store>asBitRankSupport>
    proof fn law_bitocc(&self, n: int) { lemma_ones_bound(self.bit_store.bits(), n); }
//@ impl rank::jacobson::<JacobsonRank<Store>asBitVec>
    open spec fn wf(&self) -> bool { self.bit_store.wf() }
    open spec fn bits(&self) -> Seq<bool> { self.bit_store.bits() }
    proof fn law_bits(&self) { self.bit_store.law_bits(); }
//@ fn rank::jacobson::<JacobsonRank<Store>asBitRankSupport>::rank0
//@ subst
(?<![\w.] )position \+ 1(?:u64)?(?! \*)|(?<![\w*] )1(?:u64)? \+ position => vx_add(position, 1)
//@ entry
proof { self.law_occ(true); }
proof { if position < self.rank_limit() { self.law_occ(true); self.law_bitocc(position as int + 1); } }
//@ fn rank::jacobson::JacobsonRank::inner
ensures *r == self.bit_store
//@ fn rank::jacobson::JacobsonRank::into_inner
ensures r == self.bit_store
