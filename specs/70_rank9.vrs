//@ include
rank
rank::rank9
//@ use rank::rank9
use crate::space_usage::*;
use std::mem;
use crate::vxp::*;
use crate::num_traits::*;
use crate::rank::traits::*;
use crate::bit_vec::traits::BitVec;
use crate::storage::BlockType;
//@ skip
rank::prim
//@ mod rank::rank9
/// the ones of a word counted from below
pub open spec fn l2shift(t: int) -> int { if t == 0 { 63 } else { 9 * (t - 1) } }
impl Level2 {
    pub open spec fn part(self, t: int) -> u64 { (self.0 >> (l2shift(t) as u64)) & 0x1FF }
}
proof fn lemma_l2_set(old: u64, v: u64, s: u64, s2: u64)
    requires s <= 54, s2 <= 63, s + 9 <= s2 || s2 + 9 <= s, v < 512
    ensures ((((old & !(0x1FFu64 << s)) | ((v & 0x1FF) << s)) >> s) & 0x1FF) == v,
        ((((old & !(0x1FFu64 << s)) | ((v & 0x1FF) << s)) >> s2) & 0x1FF) == (old >> s2) & 0x1FF,
{
    assert(((((old & !(0x1FFu64 << s)) | ((v & 0x1FF) << s)) >> s) & 0x1FF) == v) by (bit_vector) requires s <= 54, v < 512;
    assert(((((old & !(0x1FFu64 << s)) | ((v & 0x1FF) << s)) >> s2) & 0x1FF) == (old >> s2) & 0x1FF) by (bit_vector) requires s <= 54, s2 <= 63, s2 >= s + 9 || (s2 <= s && s2 + 9 <= s);
}
/// the entry for word w: ones before its basic block, and ones in the block before the word
pub open spec fn cellok(s: Seq<bool>, c: Rank9Cell, w: int) -> bool {
    c.level1 == ones(s, 512 * (w / 8)) && c.level2.part(w % 8) == ones(s, 64 * w) - ones(s, 512 * (w / 8))
}
impl<Store: BitVec<Block = u64>> Rank9<Store> {
    pub open spec fn wf_r9(&self) -> bool { self.bit_store.wf() && rows_ok(self.bit_store.bits(), self.counts@, cdiv(self.bit_store.bits().len() as int, 64)) && self.counts@.len() == cdiv(self.bit_store.bits().len() as int, 64) / 8 + 1 }
}
pub open spec fn rows_ok(s: Seq<bool>, counts: Seq<Rank9Cell>, k: int) -> bool {
    forall|w: int| 0 <= w < k ==> #[trigger] row_ok(s, counts, w)
}
pub open spec fn row_ok(s: Seq<bool>, counts: Seq<Rank9Cell>, w: int) -> bool { w / 8 < counts.len() && cellok(s, counts[w / 8], w) }

/// the ones of a vector up to the end of a word: those before it, and those of the block read there
proof fn lemma_word(s: Seq<bool>, w: int, x: u64, n: int)
    requires 0 <= w, 0 <= n <= 64, 64 * w + n <= s.len(), forall|i: int| 0 <= i < n ==> #[trigger] x.bit(i) == s[64 * w + i]
    ensures ones(s, 64 * w + n) == ones(s, 64 * w) + ones(bits_of(x), n)
{ lemma_ones_shift(s, 64 * w, bits_of(x), n); }
proof fn lemma_words(s: Seq<bool>, w: int, n: int)
    requires 0 <= w, 0 <= n <= 64, 64 * w + n <= s.len()
    ensures forall|x: u64| #![trigger bits_of(x)] (forall|i: int| 0 <= i < n ==> #[trigger] x.bit(i) == s[64 * w + i]) ==> ones(s, 64 * w + n) == ones(s, 64 * w) + ones(bits_of(x), n)
{
    assert forall|x: u64| #![trigger bits_of(x)] (forall|i: int| 0 <= i < n ==> #[trigger] x.bit(i) == s[64 * w + i]) implies ones(s, 64 * w + n) == ones(s, 64 * w) + ones(bits_of(x), n) by { lemma_word(s, w, x, n); }
}

//@ fn rank::rank9::Level2::new
ensures forall|t: int| 0 <= t < 8 ==> #[trigger] r.part(t) == 0
//@ before Level2 0
proof { assert forall|t: int| 0 <= t < 8 implies #[trigger] Level2(0).part(t) == 0 by { let s = l2shift(t) as u64; assert((0u64 >> s) & 0x1FF == 0) by (bit_vector); } }
//@ fn rank::rank9::Level2::get
requires t < 8
ensures r == self.part(t as int)
//@ before wrapping_add 0
proof { let t0 = t; assert(t0 >> 60 & 8 == (if t0 >= 0x8000_0000_0000_0000 { 8usize } else { 0usize })) by (bit_vector) requires t0 == 0xFFFF_FFFF_FFFF_FFFF || t0 < 8; }
//@ fn rank::rank9::Level2::set
requires 1 <= t < 8, value < 512
ensures final(self).part(t as int) == value, forall|u: int| 0 <= u < 8 && u != t ==> #[trigger] final(self).part(u) == old(self).part(u)
//@ before wrapping_add 0
let ghost t0 = t;
proof { assert(t0 >> 60 & 8 == 0) by (bit_vector) requires t0 < 8; }
//@ after wrapping_add 0
proof { let s = shift as u64; 
   assert(0x1FFu64 << shift == 0x1FFu64 << s) by (bit_vector) requires s == shift as u64; 
   assert(((value & 0x1FF) << shift) == ((value & 0x1FF) << s)) by (bit_vector) requires s == shift as u64; 
   lemma_l2_set(self.0, value, s, 63);
   assert forall|u: int| 0 <= u < 8 && u != t0 + 1 implies #[trigger] Level2((self.0 & !(0x1FFu64 << s)) | ((value & 0x1FF) << s)).part(u) == self.part(u) by { lemma_l2_set(self.0, value, s, l2shift(u) as u64); } }

//@ fn rank::rank9::Rank9::new
requires bits.wf(), bits.bits().len() <= u64::MAX - 64
ensures r.wf_r9(), r.bit_store == bits
//@ entry
let ghost s = bits.bits();
let ghost nb = cdiv(s.len() as int, 64);
proof { bits.law_bits(); lemma_blk(64, 0, s.len() as int); lemma_ones_bound(s, 0); }
//@ loop 0
invariant bits.wf(), s == bits.bits(), s.len() <= u64::MAX - 64, nb == cdiv(s.len() as int, 64), vx_e0 == nb, vx_i0 <= nb,
    level1_count <= 64 * vx_i0, vx_i0 < nb ==> level1_count == ones(s, 64 * vx_i0),
    level2_count <= 64 * (vx_i0 - 8 * ((vx_i0 - 1) / 8)), vx_i0 == 0 ==> level2_count == 0,
    0 < vx_i0 < nb ==> level2_count == ones(s, 64 * vx_i0) - ones(s, 512 * ((vx_i0 - 1) / 8)),
    result@.len() == (vx_i0 + 7) / 8, rows_ok(s, result@, vx_i0 as int),
decreases vx_e0 - vx_i0
//@ before new 0
let ghost r0 = result@;
//@ after push 0
proof { assert(rows_ok(s, result@, i as int)) by { assert forall|w: int| 0 <= w < i implies #[trigger] row_ok(s, result@, w) by { assert(row_ok(s, r0, w)); } } 
   assert(row_ok(s, result@, i as int)) by { assert(result@[i as int / 8].level2.part(0) == 0); } }
//@ before set 0
let ghost r0 = result@;
proof { assert(word_offset >= 1); assert(row_ok(s, result@, i - word_offset)); }
//@ after set 0
proof { assert forall|w: int| 0 <= w < i implies #[trigger] row_ok(s, result@, w) by { assert(row_ok(s, r0, w)); if w / 8 == basic_block_index { assert(w % 8 != word_offset); } } 
   assert(row_ok(s, result@, i as int)) by { assert(row_ok(s, result@, i - word_offset)); } }
//@ before get_block 0
proof { lemma_blk(64, i as int, s.len() as int); <u64 as PrimInt>::law_nb();
   assert forall|x: u64| #![trigger bits_of(x)] true implies ones(bits_of(x), 64) <= 64 by { lemma_ones_bound(bits_of(x), 64); }
   if i + 1 < nb { lemma_words(s, i as int, 64); } }
//@ loopend 0
proof { assert(rows_ok(s, result@, i + 1)); }
//@ before new 1
let ghost r1 = result@;
//@ after push 1
proof { assert(rows_ok(s, result@, nb)) by { assert forall|w: int| 0 <= w < nb implies #[trigger] row_ok(s, result@, w) by { assert(row_ok(s, r1, w)); } } }
//@ before set 1
let ghost r1 = result@;
//@ after set 1
proof { assert(rows_ok(s, result@, nb)) by { assert forall|w: int| 0 <= w < nb implies #[trigger] row_ok(s, result@, w) by { assert(row_ok(s, r1, w)); } } }

//@ fn rank::rank9::Rank9::inner
ensures *r == self.bit_store
//@ fn rank::rank9::Rank9::into_inner
ensures r == self.bit_store
//@ impl rank::rank9::<Rank9<Store>asRankSupport>
    open spec fn wf_rank(&self) -> bool { self.wf_r9() }
    open spec fn rank_limit(&self) -> nat { self.bit_store.bits().len() }
    open spec fn occ(&self, v: bool, n: int) -> nat { if v { ones(self.bit_store.bits(), n) } else { (n - ones(self.bit_store.bits(), n)) as nat } }
    proof fn law_occ(&self, v: bool) { self.bit_store.law_bits(); let s = self.bit_store.bits();
        assert forall|i: int| 0 <= i < self.rank_limit() implies #[trigger] self.occ(v, i) <= self.occ(v, i + 1) <= self.occ(v, i) + 1 by {
            lemma_ones_bound(s, i); lemma_ones_bound(s, i + 1); } }
//@ impl rank::rank9::<Rank9<Store>asBitRankSupport>
    proof fn law_bitocc(&self, n: int) { lemma_ones_bound(self.bit_store.bits(), n); }
//@ impl rank::rank9::<Rank9<Store>asBitVec>
    open spec fn wf(&self) -> bool { self.bit_store.wf() }
    open spec fn bits(&self) -> Seq<bool> { self.bit_store.bits() }
    proof fn law_bits(&self) { self.bit_store.law_bits(); }
//@ fn rank::rank9::<Rank9<Store>asBitRankSupport>::rank1
//@ before to_usize 0
let ghost s = self.bit_store.bits();
let ghost w = position / 64;
proof { self.bit_store.law_bits(); <u64 as PrimInt>::law_nb(); lemma_blk(64, w as int, s.len() as int); let p = position as int;
   assert(p / 512 == (p / 64) / 8 && 64 * (p / 64) + p % 64 == p && 512 * ((p / 64) / 8) <= 64 * (p / 64));
   assert(row_ok(s, self.counts@, w as int));
   lemma_words(s, w as int, p % 64 + 1); lemma_ones_bound(s, p + 1); lemma_ones_mono(s, 64 * (p / 64), p + 1); }

//@ fn rank::rank9::<Rank9<Store>asBitRankSupport>::rank0
//@ subst
(?<![\w.] )position \+ 1(?:u64)?(?! \*)|(?<![\w*] )1(?:u64)? \+ position => vx_add(position, 1)
//@ entry
proof { self.law_occ(true); }
proof { if position < self.rank_limit() { self.law_occ(true); self.law_bitocc(position as int + 1); } }
