//@ include
broadword
//@ use broadword
use crate::vxp::*;
use crate::rank::traits::*;
use crate::select::traits::*;
use crate::storage::BlockType;
//@ mod broadword
/// byte i of x
pub open spec fn lane(x: u64, i: int) -> u64 { (x >> ((8 * i) as u64)) & 0xff }
pub open spec fn lt8(i: int) -> bool { 0 <= i < 8 }
pub open spec fn is_le8u(m: u64, x: u64, y: u64) -> bool { forall|i: int| lt8(i) ==> #[trigger] lane(m, i) == if lane(x, i) <= lane(y, i) { 0x80u64 } else { 0 } }
pub open spec fn signed8(b: u64) -> int { if b < 128 { b as int } else { b - 256 } }
pub open spec fn is_le8(m: u64, x: u64, y: u64) -> bool { forall|i: int| lt8(i) ==> #[trigger] lane(m, i) == if signed8(lane(x, i)) <= signed8(lane(y, i)) { 0x80u64 } else { 0 } }
pub open spec fn is_nz8(m: u64, x: u64) -> bool { forall|i: int| lt8(i) ==> #[trigger] lane(m, i) == if lane(x, i) != 0 { 0x80u64 } else { 0 } }
pub proof fn values_of_l8_and_h8() ensures L8 == 0x0101_0101_0101_0101, H8 == 0x8080_8080_8080_8080 {}

// the same, as machine arithmetic
#[verifier::opaque] pub open spec fn xl8(x: u64) -> u64 { mul(x, 0x0101_0101_0101_0101) }
pub open spec fn h8() -> u64 { 0x8080_8080_8080_8080 }
pub open spec fn f_le8u(x: u64, y: u64) -> u64 { ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) | (x ^ y)) ^ (x & !y)) & 0x8080_8080_8080_8080 }
pub open spec fn f_le8(x: u64, y: u64) -> u64 { ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) & !(x ^ y)) | (x & !y)) & 0x8080_8080_8080_8080 }
pub open spec fn f_nz8(x: u64) -> u64 { (sub(x | 0x8080_8080_8080_8080, 0x0101_0101_0101_0101) | x) & 0x8080_8080_8080_8080 }
pub open spec fn swar1(x: u64) -> u64 { sub(x, (x & 0xAAAA_AAAA_AAAA_AAAA) >> 1) }
pub open spec fn swar2(x: u64) -> u64 { add(x & 0x3333_3333_3333_3333, (x >> 2) & 0x3333_3333_3333_3333) }
pub open spec fn swar3(x: u64) -> u64 { add(x, x >> 4) & 0x0F0F_0F0F_0F0F_0F0F }
pub open spec fn swar(x: u64) -> u64 { swar3(swar2(swar1(x))) }

pub proof fn lemma_xl8(x: u64)
    ensures (x * 0x0101_0101_0101_0101) % 0x1_0000_0000_0000_0000 == xl8(x), x.wrapping_mul(0x0101_0101_0101_0101) == xl8(x)
{
    reveal(xl8);
    let p = (x as u128 * 0x0101_0101_0101_0101) as u128;
    assert(p == x * 0x0101_0101_0101_0101);
    assert(p % 0x1_0000_0000_0000_0000 == mul(x, 0x0101_0101_0101_0101) as u128) by (bit_vector) requires p == mul(x as u128, 0x0101_0101_0101_0101);
}
/// lanes determine the word
pub proof fn lemma_lanes(x: u64, y: u64)
    requires forall|i: int| lt8(i) ==> #[trigger] lane(x, i) == lane(y, i)
    ensures x == y
{
    assert(lane(x, 0) == lane(y, 0)); assert(lane(x, 1) == lane(y, 1)); assert(lane(x, 2) == lane(y, 2)); assert(lane(x, 3) == lane(y, 3)); assert(lane(x, 4) == lane(y, 4)); assert(lane(x, 5) == lane(y, 5)); assert(lane(x, 6) == lane(y, 6)); assert(lane(x, 7) == lane(y, 7)); 
    assert(x == y) by (bit_vector) requires (x >> 0) & 0xff == (y >> 0) & 0xff, (x >> 8) & 0xff == (y >> 8) & 0xff, (x >> 16) & 0xff == (y >> 16) & 0xff, (x >> 24) & 0xff == (y >> 24) & 0xff, (x >> 32) & 0xff == (y >> 32) & 0xff, (x >> 40) & 0xff == (y >> 40) & 0xff, (x >> 48) & 0xff == (y >> 48) & 0xff, (x >> 56) & 0xff == (y >> 56) & 0xff;
}
pub proof fn lemma_le8u(x: u64, y: u64)
    ensures is_le8u(f_le8u(x, y), x, y), (y | 0x8080_8080_8080_8080) >= (x & !0x8080_8080_8080_8080)
{
    let m = f_le8u(x, y);
    assert((y | 0x8080_8080_8080_8080) >= (x & !0x8080_8080_8080_8080)) by (bit_vector);
    assert(((m >> 0) & 0xff) == if ((x >> 0) & 0xff) <= ((y >> 0) & 0xff) { 0x80u64 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) | (x ^ y)) ^ (x & !y)) & 0x8080_8080_8080_8080;
    assert(lane(m, 0) == if lane(x, 0) <= lane(y, 0) { 0x80u64 } else { 0 });
    assert(((m >> 8) & 0xff) == if ((x >> 8) & 0xff) <= ((y >> 8) & 0xff) { 0x80u64 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) | (x ^ y)) ^ (x & !y)) & 0x8080_8080_8080_8080;
    assert(lane(m, 1) == if lane(x, 1) <= lane(y, 1) { 0x80u64 } else { 0 });
    assert(((m >> 16) & 0xff) == if ((x >> 16) & 0xff) <= ((y >> 16) & 0xff) { 0x80u64 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) | (x ^ y)) ^ (x & !y)) & 0x8080_8080_8080_8080;
    assert(lane(m, 2) == if lane(x, 2) <= lane(y, 2) { 0x80u64 } else { 0 });
    assert(((m >> 24) & 0xff) == if ((x >> 24) & 0xff) <= ((y >> 24) & 0xff) { 0x80u64 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) | (x ^ y)) ^ (x & !y)) & 0x8080_8080_8080_8080;
    assert(lane(m, 3) == if lane(x, 3) <= lane(y, 3) { 0x80u64 } else { 0 });
    assert(((m >> 32) & 0xff) == if ((x >> 32) & 0xff) <= ((y >> 32) & 0xff) { 0x80u64 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) | (x ^ y)) ^ (x & !y)) & 0x8080_8080_8080_8080;
    assert(lane(m, 4) == if lane(x, 4) <= lane(y, 4) { 0x80u64 } else { 0 });
    assert(((m >> 40) & 0xff) == if ((x >> 40) & 0xff) <= ((y >> 40) & 0xff) { 0x80u64 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) | (x ^ y)) ^ (x & !y)) & 0x8080_8080_8080_8080;
    assert(lane(m, 5) == if lane(x, 5) <= lane(y, 5) { 0x80u64 } else { 0 });
    assert(((m >> 48) & 0xff) == if ((x >> 48) & 0xff) <= ((y >> 48) & 0xff) { 0x80u64 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) | (x ^ y)) ^ (x & !y)) & 0x8080_8080_8080_8080;
    assert(lane(m, 6) == if lane(x, 6) <= lane(y, 6) { 0x80u64 } else { 0 });
    assert(((m >> 56) & 0xff) == if ((x >> 56) & 0xff) <= ((y >> 56) & 0xff) { 0x80u64 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) | (x ^ y)) ^ (x & !y)) & 0x8080_8080_8080_8080;
    assert(lane(m, 7) == if lane(x, 7) <= lane(y, 7) { 0x80u64 } else { 0 });
    
    assert forall|i: int| lt8(i) implies #[trigger] lane(m, i) == if lane(x, i) <= lane(y, i) { 0x80u64 } else { 0 } by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else { assert(i == 7); } }
}
pub proof fn lemma_le8(x: u64, y: u64)
    ensures is_le8(f_le8(x, y), x, y), (y | 0x8080_8080_8080_8080) >= (x & !0x8080_8080_8080_8080)
{
    let m = f_le8(x, y);
    assert((y | 0x8080_8080_8080_8080) >= (x & !0x8080_8080_8080_8080)) by (bit_vector);
    assert(((m >> 0) & 0xff) == if ((x >> 0) & 0xff) < 128 && ((y >> 0) & 0xff) < 128 || ((x >> 0) & 0xff) >= 128 && ((y >> 0) & 0xff) >= 128 { if ((x >> 0) & 0xff) <= ((y >> 0) & 0xff) { 0x80u64 } else { 0 } } else if ((x >> 0) & 0xff) >= 128 { 0x80 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) & !(x ^ y)) | (x & !y)) & 0x8080_8080_8080_8080;
    assert(((x >> 0) & 0xff) <= 255 && ((y >> 0) & 0xff) <= 255) by (bit_vector);
    assert(lane(m, 0) == if signed8(lane(x, 0)) <= signed8(lane(y, 0)) { 0x80u64 } else { 0 });
    assert(((m >> 8) & 0xff) == if ((x >> 8) & 0xff) < 128 && ((y >> 8) & 0xff) < 128 || ((x >> 8) & 0xff) >= 128 && ((y >> 8) & 0xff) >= 128 { if ((x >> 8) & 0xff) <= ((y >> 8) & 0xff) { 0x80u64 } else { 0 } } else if ((x >> 8) & 0xff) >= 128 { 0x80 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) & !(x ^ y)) | (x & !y)) & 0x8080_8080_8080_8080;
    assert(((x >> 8) & 0xff) <= 255 && ((y >> 8) & 0xff) <= 255) by (bit_vector);
    assert(lane(m, 1) == if signed8(lane(x, 1)) <= signed8(lane(y, 1)) { 0x80u64 } else { 0 });
    assert(((m >> 16) & 0xff) == if ((x >> 16) & 0xff) < 128 && ((y >> 16) & 0xff) < 128 || ((x >> 16) & 0xff) >= 128 && ((y >> 16) & 0xff) >= 128 { if ((x >> 16) & 0xff) <= ((y >> 16) & 0xff) { 0x80u64 } else { 0 } } else if ((x >> 16) & 0xff) >= 128 { 0x80 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) & !(x ^ y)) | (x & !y)) & 0x8080_8080_8080_8080;
    assert(((x >> 16) & 0xff) <= 255 && ((y >> 16) & 0xff) <= 255) by (bit_vector);
    assert(lane(m, 2) == if signed8(lane(x, 2)) <= signed8(lane(y, 2)) { 0x80u64 } else { 0 });
    assert(((m >> 24) & 0xff) == if ((x >> 24) & 0xff) < 128 && ((y >> 24) & 0xff) < 128 || ((x >> 24) & 0xff) >= 128 && ((y >> 24) & 0xff) >= 128 { if ((x >> 24) & 0xff) <= ((y >> 24) & 0xff) { 0x80u64 } else { 0 } } else if ((x >> 24) & 0xff) >= 128 { 0x80 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) & !(x ^ y)) | (x & !y)) & 0x8080_8080_8080_8080;
    assert(((x >> 24) & 0xff) <= 255 && ((y >> 24) & 0xff) <= 255) by (bit_vector);
    assert(lane(m, 3) == if signed8(lane(x, 3)) <= signed8(lane(y, 3)) { 0x80u64 } else { 0 });
    assert(((m >> 32) & 0xff) == if ((x >> 32) & 0xff) < 128 && ((y >> 32) & 0xff) < 128 || ((x >> 32) & 0xff) >= 128 && ((y >> 32) & 0xff) >= 128 { if ((x >> 32) & 0xff) <= ((y >> 32) & 0xff) { 0x80u64 } else { 0 } } else if ((x >> 32) & 0xff) >= 128 { 0x80 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) & !(x ^ y)) | (x & !y)) & 0x8080_8080_8080_8080;
    assert(((x >> 32) & 0xff) <= 255 && ((y >> 32) & 0xff) <= 255) by (bit_vector);
    assert(lane(m, 4) == if signed8(lane(x, 4)) <= signed8(lane(y, 4)) { 0x80u64 } else { 0 });
    assert(((m >> 40) & 0xff) == if ((x >> 40) & 0xff) < 128 && ((y >> 40) & 0xff) < 128 || ((x >> 40) & 0xff) >= 128 && ((y >> 40) & 0xff) >= 128 { if ((x >> 40) & 0xff) <= ((y >> 40) & 0xff) { 0x80u64 } else { 0 } } else if ((x >> 40) & 0xff) >= 128 { 0x80 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) & !(x ^ y)) | (x & !y)) & 0x8080_8080_8080_8080;
    assert(((x >> 40) & 0xff) <= 255 && ((y >> 40) & 0xff) <= 255) by (bit_vector);
    assert(lane(m, 5) == if signed8(lane(x, 5)) <= signed8(lane(y, 5)) { 0x80u64 } else { 0 });
    assert(((m >> 48) & 0xff) == if ((x >> 48) & 0xff) < 128 && ((y >> 48) & 0xff) < 128 || ((x >> 48) & 0xff) >= 128 && ((y >> 48) & 0xff) >= 128 { if ((x >> 48) & 0xff) <= ((y >> 48) & 0xff) { 0x80u64 } else { 0 } } else if ((x >> 48) & 0xff) >= 128 { 0x80 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) & !(x ^ y)) | (x & !y)) & 0x8080_8080_8080_8080;
    assert(((x >> 48) & 0xff) <= 255 && ((y >> 48) & 0xff) <= 255) by (bit_vector);
    assert(lane(m, 6) == if signed8(lane(x, 6)) <= signed8(lane(y, 6)) { 0x80u64 } else { 0 });
    assert(((m >> 56) & 0xff) == if ((x >> 56) & 0xff) < 128 && ((y >> 56) & 0xff) < 128 || ((x >> 56) & 0xff) >= 128 && ((y >> 56) & 0xff) >= 128 { if ((x >> 56) & 0xff) <= ((y >> 56) & 0xff) { 0x80u64 } else { 0 } } else if ((x >> 56) & 0xff) >= 128 { 0x80 } else { 0 }) by (bit_vector) requires m == ((sub(y | 0x8080_8080_8080_8080, x & !0x8080_8080_8080_8080) & !(x ^ y)) | (x & !y)) & 0x8080_8080_8080_8080;
    assert(((x >> 56) & 0xff) <= 255 && ((y >> 56) & 0xff) <= 255) by (bit_vector);
    assert(lane(m, 7) == if signed8(lane(x, 7)) <= signed8(lane(y, 7)) { 0x80u64 } else { 0 });
    
    assert forall|i: int| lt8(i) implies #[trigger] lane(m, i) == if signed8(lane(x, i)) <= signed8(lane(y, i)) { 0x80u64 } else { 0 } by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else { assert(i == 7); } }
}
pub proof fn lemma_nz8(x: u64)
    ensures is_nz8(f_nz8(x), x), (x | 0x8080_8080_8080_8080) >= 0x0101_0101_0101_0101
{
    let m = f_nz8(x);
    assert((x | 0x8080_8080_8080_8080) >= 0x0101_0101_0101_0101) by (bit_vector);
    assert(((m >> 0) & 0xff) == if ((x >> 0) & 0xff) != 0 { 0x80u64 } else { 0 }) by (bit_vector) requires m == (sub(x | 0x8080_8080_8080_8080, 0x0101_0101_0101_0101) | x) & 0x8080_8080_8080_8080;
    assert(lane(m, 0) == if lane(x, 0) != 0 { 0x80u64 } else { 0 });
    assert(((m >> 8) & 0xff) == if ((x >> 8) & 0xff) != 0 { 0x80u64 } else { 0 }) by (bit_vector) requires m == (sub(x | 0x8080_8080_8080_8080, 0x0101_0101_0101_0101) | x) & 0x8080_8080_8080_8080;
    assert(lane(m, 1) == if lane(x, 1) != 0 { 0x80u64 } else { 0 });
    assert(((m >> 16) & 0xff) == if ((x >> 16) & 0xff) != 0 { 0x80u64 } else { 0 }) by (bit_vector) requires m == (sub(x | 0x8080_8080_8080_8080, 0x0101_0101_0101_0101) | x) & 0x8080_8080_8080_8080;
    assert(lane(m, 2) == if lane(x, 2) != 0 { 0x80u64 } else { 0 });
    assert(((m >> 24) & 0xff) == if ((x >> 24) & 0xff) != 0 { 0x80u64 } else { 0 }) by (bit_vector) requires m == (sub(x | 0x8080_8080_8080_8080, 0x0101_0101_0101_0101) | x) & 0x8080_8080_8080_8080;
    assert(lane(m, 3) == if lane(x, 3) != 0 { 0x80u64 } else { 0 });
    assert(((m >> 32) & 0xff) == if ((x >> 32) & 0xff) != 0 { 0x80u64 } else { 0 }) by (bit_vector) requires m == (sub(x | 0x8080_8080_8080_8080, 0x0101_0101_0101_0101) | x) & 0x8080_8080_8080_8080;
    assert(lane(m, 4) == if lane(x, 4) != 0 { 0x80u64 } else { 0 });
    assert(((m >> 40) & 0xff) == if ((x >> 40) & 0xff) != 0 { 0x80u64 } else { 0 }) by (bit_vector) requires m == (sub(x | 0x8080_8080_8080_8080, 0x0101_0101_0101_0101) | x) & 0x8080_8080_8080_8080;
    assert(lane(m, 5) == if lane(x, 5) != 0 { 0x80u64 } else { 0 });
    assert(((m >> 48) & 0xff) == if ((x >> 48) & 0xff) != 0 { 0x80u64 } else { 0 }) by (bit_vector) requires m == (sub(x | 0x8080_8080_8080_8080, 0x0101_0101_0101_0101) | x) & 0x8080_8080_8080_8080;
    assert(lane(m, 6) == if lane(x, 6) != 0 { 0x80u64 } else { 0 });
    assert(((m >> 56) & 0xff) == if ((x >> 56) & 0xff) != 0 { 0x80u64 } else { 0 }) by (bit_vector) requires m == (sub(x | 0x8080_8080_8080_8080, 0x0101_0101_0101_0101) | x) & 0x8080_8080_8080_8080;
    assert(lane(m, 7) == if lane(x, 7) != 0 { 0x80u64 } else { 0 });
    
    assert forall|i: int| lt8(i) implies #[trigger] lane(m, i) == if lane(x, i) != 0 { 0x80u64 } else { 0 } by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else { assert(i == 7); } }
}
/// what the calls to le8 and u_nz8 return is a function of the arguments
pub proof fn lemma_calls()
    ensures forall|m: u64, x: u64, y: u64| #[trigger] is_le8(m, x, y) ==> m == f_le8(x, y), forall|m: u64, x: u64| #[trigger] is_nz8(m, x) ==> m == f_nz8(x)
{
    assert forall|m: u64, x: u64, y: u64| #[trigger] is_le8(m, x, y) implies m == f_le8(x, y) by { lemma_le8(x, y); lemma_lanes(m, f_le8(x, y)); }
    assert forall|m: u64, x: u64| #[trigger] is_nz8(m, x) implies m == f_nz8(x) by { lemma_nz8(x); lemma_lanes(m, f_nz8(x)); }
}

/// ones of byte i of x
pub open spec fn byte_ones(x: u64, i: int) -> int { ones(bits_of(x), 8 * i + 8) - ones(bits_of(x), 8 * i) }
proof fn lemma_bit01(x: u64, j: u64)
    requires j < 64
    ensures (x >> j) & 1 == if x.bit(j as int) { 1u64 } else { 0 }
{ assert((x >> j) & 1 == 0 || (x >> j) & 1 == 1) by (bit_vector); }
proof fn lemma_swar1(x: u64) ensures swar1(x) == add(x & 0x5555_5555_5555_5555, (x >> 1) & 0x5555_5555_5555_5555), x >= (x & 0xAAAA_AAAA_AAAA_AAAA) >> 1
{
    assert(sub(x, (x & 0xAAAA_AAAA_AAAA_AAAA) >> 1) == add(x & 0x5555_5555_5555_5555, (x >> 1) & 0x5555_5555_5555_5555)) by (bit_vector);
    assert(x >= (x & 0xAAAA_AAAA_AAAA_AAAA) >> 1) by (bit_vector);
}
proof fn lemma_swar_0(x: u64)
    ensures lane(swar(x), 0) == byte_ones(x, 0), lane(swar(x), 0) <= 8
{
    let a = swar1(x); let b = swar2(a); let c = swar3(b); let k = 0 as u64; let y = (x >> k) & 0xff;
    lemma_swar1(x);
    assert((c >> 0) & 0xff == add(add(add(x >> 0 & 1, x >> (1) & 1), add(x >> (2) & 1, x >> (3) & 1)), add(add(x >> (4) & 1, x >> (5) & 1), add(x >> (6) & 1, x >> (7) & 1)))) by (bit_vector) requires
        a == add(x & 0x5555_5555_5555_5555, (x >> 1) & 0x5555_5555_5555_5555), b == add(a & 0x3333_3333_3333_3333, (a >> 2) & 0x3333_3333_3333_3333), c == add(b, b >> 4) & 0x0F0F_0F0F_0F0F_0F0F;
    lemma_bit01(x, 0); lemma_bit01(x, 1); lemma_bit01(x, 2); lemma_bit01(x, 3); lemma_bit01(x, 4); lemma_bit01(x, 5); lemma_bit01(x, 6); lemma_bit01(x, 7); 
    reveal_with_fuel(ones, 9);
    assert(lane(c, 0) == (c >> 0) & 0xff);
}
proof fn lemma_swar_1(x: u64)
    ensures lane(swar(x), 1) == byte_ones(x, 1), lane(swar(x), 1) <= 8
{
    let a = swar1(x); let b = swar2(a); let c = swar3(b); let k = 8 as u64; let y = (x >> k) & 0xff;
    lemma_swar1(x);
    assert((c >> 8) & 0xff == add(add(add(x >> 8 & 1, x >> (9) & 1), add(x >> (10) & 1, x >> (11) & 1)), add(add(x >> (12) & 1, x >> (13) & 1), add(x >> (14) & 1, x >> (15) & 1)))) by (bit_vector) requires
        a == add(x & 0x5555_5555_5555_5555, (x >> 1) & 0x5555_5555_5555_5555), b == add(a & 0x3333_3333_3333_3333, (a >> 2) & 0x3333_3333_3333_3333), c == add(b, b >> 4) & 0x0F0F_0F0F_0F0F_0F0F;
    lemma_bit01(x, 8); lemma_bit01(x, 9); lemma_bit01(x, 10); lemma_bit01(x, 11); lemma_bit01(x, 12); lemma_bit01(x, 13); lemma_bit01(x, 14); lemma_bit01(x, 15); 
    reveal_with_fuel(ones, 9);
    assert(lane(c, 1) == (c >> 8) & 0xff);
}
proof fn lemma_swar_2(x: u64)
    ensures lane(swar(x), 2) == byte_ones(x, 2), lane(swar(x), 2) <= 8
{
    let a = swar1(x); let b = swar2(a); let c = swar3(b); let k = 16 as u64; let y = (x >> k) & 0xff;
    lemma_swar1(x);
    assert((c >> 16) & 0xff == add(add(add(x >> 16 & 1, x >> (17) & 1), add(x >> (18) & 1, x >> (19) & 1)), add(add(x >> (20) & 1, x >> (21) & 1), add(x >> (22) & 1, x >> (23) & 1)))) by (bit_vector) requires
        a == add(x & 0x5555_5555_5555_5555, (x >> 1) & 0x5555_5555_5555_5555), b == add(a & 0x3333_3333_3333_3333, (a >> 2) & 0x3333_3333_3333_3333), c == add(b, b >> 4) & 0x0F0F_0F0F_0F0F_0F0F;
    lemma_bit01(x, 16); lemma_bit01(x, 17); lemma_bit01(x, 18); lemma_bit01(x, 19); lemma_bit01(x, 20); lemma_bit01(x, 21); lemma_bit01(x, 22); lemma_bit01(x, 23); 
    reveal_with_fuel(ones, 9);
    assert(lane(c, 2) == (c >> 16) & 0xff);
}
proof fn lemma_swar_3(x: u64)
    ensures lane(swar(x), 3) == byte_ones(x, 3), lane(swar(x), 3) <= 8
{
    let a = swar1(x); let b = swar2(a); let c = swar3(b); let k = 24 as u64; let y = (x >> k) & 0xff;
    lemma_swar1(x);
    assert((c >> 24) & 0xff == add(add(add(x >> 24 & 1, x >> (25) & 1), add(x >> (26) & 1, x >> (27) & 1)), add(add(x >> (28) & 1, x >> (29) & 1), add(x >> (30) & 1, x >> (31) & 1)))) by (bit_vector) requires
        a == add(x & 0x5555_5555_5555_5555, (x >> 1) & 0x5555_5555_5555_5555), b == add(a & 0x3333_3333_3333_3333, (a >> 2) & 0x3333_3333_3333_3333), c == add(b, b >> 4) & 0x0F0F_0F0F_0F0F_0F0F;
    lemma_bit01(x, 24); lemma_bit01(x, 25); lemma_bit01(x, 26); lemma_bit01(x, 27); lemma_bit01(x, 28); lemma_bit01(x, 29); lemma_bit01(x, 30); lemma_bit01(x, 31); 
    reveal_with_fuel(ones, 9);
    assert(lane(c, 3) == (c >> 24) & 0xff);
}
proof fn lemma_swar_4(x: u64)
    ensures lane(swar(x), 4) == byte_ones(x, 4), lane(swar(x), 4) <= 8
{
    let a = swar1(x); let b = swar2(a); let c = swar3(b); let k = 32 as u64; let y = (x >> k) & 0xff;
    lemma_swar1(x);
    assert((c >> 32) & 0xff == add(add(add(x >> 32 & 1, x >> (33) & 1), add(x >> (34) & 1, x >> (35) & 1)), add(add(x >> (36) & 1, x >> (37) & 1), add(x >> (38) & 1, x >> (39) & 1)))) by (bit_vector) requires
        a == add(x & 0x5555_5555_5555_5555, (x >> 1) & 0x5555_5555_5555_5555), b == add(a & 0x3333_3333_3333_3333, (a >> 2) & 0x3333_3333_3333_3333), c == add(b, b >> 4) & 0x0F0F_0F0F_0F0F_0F0F;
    lemma_bit01(x, 32); lemma_bit01(x, 33); lemma_bit01(x, 34); lemma_bit01(x, 35); lemma_bit01(x, 36); lemma_bit01(x, 37); lemma_bit01(x, 38); lemma_bit01(x, 39); 
    reveal_with_fuel(ones, 9);
    assert(lane(c, 4) == (c >> 32) & 0xff);
}
proof fn lemma_swar_5(x: u64)
    ensures lane(swar(x), 5) == byte_ones(x, 5), lane(swar(x), 5) <= 8
{
    let a = swar1(x); let b = swar2(a); let c = swar3(b); let k = 40 as u64; let y = (x >> k) & 0xff;
    lemma_swar1(x);
    assert((c >> 40) & 0xff == add(add(add(x >> 40 & 1, x >> (41) & 1), add(x >> (42) & 1, x >> (43) & 1)), add(add(x >> (44) & 1, x >> (45) & 1), add(x >> (46) & 1, x >> (47) & 1)))) by (bit_vector) requires
        a == add(x & 0x5555_5555_5555_5555, (x >> 1) & 0x5555_5555_5555_5555), b == add(a & 0x3333_3333_3333_3333, (a >> 2) & 0x3333_3333_3333_3333), c == add(b, b >> 4) & 0x0F0F_0F0F_0F0F_0F0F;
    lemma_bit01(x, 40); lemma_bit01(x, 41); lemma_bit01(x, 42); lemma_bit01(x, 43); lemma_bit01(x, 44); lemma_bit01(x, 45); lemma_bit01(x, 46); lemma_bit01(x, 47); 
    reveal_with_fuel(ones, 9);
    assert(lane(c, 5) == (c >> 40) & 0xff);
}
proof fn lemma_swar_6(x: u64)
    ensures lane(swar(x), 6) == byte_ones(x, 6), lane(swar(x), 6) <= 8
{
    let a = swar1(x); let b = swar2(a); let c = swar3(b); let k = 48 as u64; let y = (x >> k) & 0xff;
    lemma_swar1(x);
    assert((c >> 48) & 0xff == add(add(add(x >> 48 & 1, x >> (49) & 1), add(x >> (50) & 1, x >> (51) & 1)), add(add(x >> (52) & 1, x >> (53) & 1), add(x >> (54) & 1, x >> (55) & 1)))) by (bit_vector) requires
        a == add(x & 0x5555_5555_5555_5555, (x >> 1) & 0x5555_5555_5555_5555), b == add(a & 0x3333_3333_3333_3333, (a >> 2) & 0x3333_3333_3333_3333), c == add(b, b >> 4) & 0x0F0F_0F0F_0F0F_0F0F;
    lemma_bit01(x, 48); lemma_bit01(x, 49); lemma_bit01(x, 50); lemma_bit01(x, 51); lemma_bit01(x, 52); lemma_bit01(x, 53); lemma_bit01(x, 54); lemma_bit01(x, 55); 
    reveal_with_fuel(ones, 9);
    assert(lane(c, 6) == (c >> 48) & 0xff);
}
proof fn lemma_swar_7(x: u64)
    ensures lane(swar(x), 7) == byte_ones(x, 7), lane(swar(x), 7) <= 8
{
    let a = swar1(x); let b = swar2(a); let c = swar3(b); let k = 56 as u64; let y = (x >> k) & 0xff;
    lemma_swar1(x);
    assert((c >> 56) & 0xff == add(add(add(x >> 56 & 1, x >> (57) & 1), add(x >> (58) & 1, x >> (59) & 1)), add(add(x >> (60) & 1, x >> (61) & 1), add(x >> (62) & 1, x >> (63) & 1)))) by (bit_vector) requires
        a == add(x & 0x5555_5555_5555_5555, (x >> 1) & 0x5555_5555_5555_5555), b == add(a & 0x3333_3333_3333_3333, (a >> 2) & 0x3333_3333_3333_3333), c == add(b, b >> 4) & 0x0F0F_0F0F_0F0F_0F0F;
    lemma_bit01(x, 56); lemma_bit01(x, 57); lemma_bit01(x, 58); lemma_bit01(x, 59); lemma_bit01(x, 60); lemma_bit01(x, 61); lemma_bit01(x, 62); lemma_bit01(x, 63); 
    reveal_with_fuel(ones, 9);
    assert(lane(c, 7) == (c >> 56) & 0xff);
}
/// every byte of the sideways additions holds the ones of that byte; no machine arithmetic overflows on the way
pub proof fn lemma_swar(x: u64)
    ensures forall|i: int| lt8(i) ==> #[trigger] lane(swar(x), i) == byte_ones(x, i) && byte_ones(x, i) <= 8,
        x >= (x & 0xAAAA_AAAA_AAAA_AAAA) >> 1,
        (swar1(x) & 0x3333_3333_3333_3333) + ((swar1(x) >> 2) & 0x3333_3333_3333_3333) <= u64::MAX,
        swar2(swar1(x)) + (swar2(swar1(x)) >> 4) <= u64::MAX,
{
    lemma_swar1(x);
    let a = swar1(x); let b = swar2(a);
    assert(a & 0x3333_3333_3333_3333 <= 0x3333_3333_3333_3333 && (a >> 2) & 0x3333_3333_3333_3333 <= 0x3333_3333_3333_3333) by (bit_vector);
    assert(b <= 0x6666_6666_6666_6666 && b >> 4 <= 0x0fff_ffff_ffff_ffff) by (bit_vector) requires b == add(a & 0x3333_3333_3333_3333, (a >> 2) & 0x3333_3333_3333_3333);
    lemma_swar_0(x); lemma_swar_1(x); lemma_swar_2(x); lemma_swar_3(x); lemma_swar_4(x); lemma_swar_5(x); lemma_swar_6(x); lemma_swar_7(x); 
    assert forall|i: int| lt8(i) implies #[trigger] lane(swar(x), i) == byte_ones(x, i) && byte_ones(x, i) <= 8 by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else { assert(i == 7); } }
}
/// the sum of bytes 0..=i
pub open spec fn psum(c: u64, i: int) -> int decreases i + 1 { if i < 0 { 0 } else { psum(c, i - 1) + lane(c, i) } }
/// multiplying by L8 adds up prefixes
pub proof fn lemma_prefix(c: u64)
    requires forall|i: int| lt8(i) ==> #[trigger] lane(c, i) <= 8
    ensures forall|i: int| lt8(i) ==> #[trigger] lane(xl8(c), i) == psum(c, i), xl8(c) >> 56 == psum(c, 7), lane(c, 0) <= 8, xl8(c) >> 53 == 8 * psum(c, 7) + (lane(xl8(c), 6) / 32),
        forall|i: int| lt8(i) ==> 0 <= #[trigger] psum(c, i - 1) <= psum(c, i) <= 8 * (i + 1),
{
    reveal(xl8);
    let s = xl8(c);
    assert(lane(c, 0) <= 8); let c0 = (c >> 0) & 0xff; assert(c0 == lane(c, 0)); assert(lane(c, 1) <= 8); let c1 = (c >> 8) & 0xff; assert(c1 == lane(c, 1)); assert(lane(c, 2) <= 8); let c2 = (c >> 16) & 0xff; assert(c2 == lane(c, 2)); assert(lane(c, 3) <= 8); let c3 = (c >> 24) & 0xff; assert(c3 == lane(c, 3)); assert(lane(c, 4) <= 8); let c4 = (c >> 32) & 0xff; assert(c4 == lane(c, 4)); assert(lane(c, 5) <= 8); let c5 = (c >> 40) & 0xff; assert(c5 == lane(c, 5)); assert(lane(c, 6) <= 8); let c6 = (c >> 48) & 0xff; assert(c6 == lane(c, 6)); assert(lane(c, 7) <= 8); let c7 = (c >> 56) & 0xff; assert(c7 == lane(c, 7)); 
    reveal_with_fuel(psum, 9);
    assert((s >> 0) & 0xff == (c >> 0) & 0xff) by (bit_vector) requires s == mul(c, 0x0101_0101_0101_0101), (c >> 0) & 0xff <= 8, (c >> 8) & 0xff <= 8, (c >> 16) & 0xff <= 8, (c >> 24) & 0xff <= 8, (c >> 32) & 0xff <= 8, (c >> 40) & 0xff <= 8, (c >> 48) & 0xff <= 8, (c >> 56) & 0xff <= 8;
    assert(lane(s, 0) == psum(c, 0));
    assert((s >> 8) & 0xff == add((c >> 0) & 0xff, (c >> 8) & 0xff)) by (bit_vector) requires s == mul(c, 0x0101_0101_0101_0101), (c >> 0) & 0xff <= 8, (c >> 8) & 0xff <= 8, (c >> 16) & 0xff <= 8, (c >> 24) & 0xff <= 8, (c >> 32) & 0xff <= 8, (c >> 40) & 0xff <= 8, (c >> 48) & 0xff <= 8, (c >> 56) & 0xff <= 8;
    assert(lane(s, 1) == psum(c, 1));
    assert((s >> 16) & 0xff == add(add((c >> 0) & 0xff, (c >> 8) & 0xff), (c >> 16) & 0xff)) by (bit_vector) requires s == mul(c, 0x0101_0101_0101_0101), (c >> 0) & 0xff <= 8, (c >> 8) & 0xff <= 8, (c >> 16) & 0xff <= 8, (c >> 24) & 0xff <= 8, (c >> 32) & 0xff <= 8, (c >> 40) & 0xff <= 8, (c >> 48) & 0xff <= 8, (c >> 56) & 0xff <= 8;
    assert(lane(s, 2) == psum(c, 2));
    assert((s >> 24) & 0xff == add(add(add((c >> 0) & 0xff, (c >> 8) & 0xff), (c >> 16) & 0xff), (c >> 24) & 0xff)) by (bit_vector) requires s == mul(c, 0x0101_0101_0101_0101), (c >> 0) & 0xff <= 8, (c >> 8) & 0xff <= 8, (c >> 16) & 0xff <= 8, (c >> 24) & 0xff <= 8, (c >> 32) & 0xff <= 8, (c >> 40) & 0xff <= 8, (c >> 48) & 0xff <= 8, (c >> 56) & 0xff <= 8;
    assert(lane(s, 3) == psum(c, 3));
    assert((s >> 32) & 0xff == add(add(add(add((c >> 0) & 0xff, (c >> 8) & 0xff), (c >> 16) & 0xff), (c >> 24) & 0xff), (c >> 32) & 0xff)) by (bit_vector) requires s == mul(c, 0x0101_0101_0101_0101), (c >> 0) & 0xff <= 8, (c >> 8) & 0xff <= 8, (c >> 16) & 0xff <= 8, (c >> 24) & 0xff <= 8, (c >> 32) & 0xff <= 8, (c >> 40) & 0xff <= 8, (c >> 48) & 0xff <= 8, (c >> 56) & 0xff <= 8;
    assert(lane(s, 4) == psum(c, 4));
    assert((s >> 40) & 0xff == add(add(add(add(add((c >> 0) & 0xff, (c >> 8) & 0xff), (c >> 16) & 0xff), (c >> 24) & 0xff), (c >> 32) & 0xff), (c >> 40) & 0xff)) by (bit_vector) requires s == mul(c, 0x0101_0101_0101_0101), (c >> 0) & 0xff <= 8, (c >> 8) & 0xff <= 8, (c >> 16) & 0xff <= 8, (c >> 24) & 0xff <= 8, (c >> 32) & 0xff <= 8, (c >> 40) & 0xff <= 8, (c >> 48) & 0xff <= 8, (c >> 56) & 0xff <= 8;
    assert(lane(s, 5) == psum(c, 5));
    assert((s >> 48) & 0xff == add(add(add(add(add(add((c >> 0) & 0xff, (c >> 8) & 0xff), (c >> 16) & 0xff), (c >> 24) & 0xff), (c >> 32) & 0xff), (c >> 40) & 0xff), (c >> 48) & 0xff)) by (bit_vector) requires s == mul(c, 0x0101_0101_0101_0101), (c >> 0) & 0xff <= 8, (c >> 8) & 0xff <= 8, (c >> 16) & 0xff <= 8, (c >> 24) & 0xff <= 8, (c >> 32) & 0xff <= 8, (c >> 40) & 0xff <= 8, (c >> 48) & 0xff <= 8, (c >> 56) & 0xff <= 8;
    assert(lane(s, 6) == psum(c, 6));
    assert((s >> 56) & 0xff == add(add(add(add(add(add(add((c >> 0) & 0xff, (c >> 8) & 0xff), (c >> 16) & 0xff), (c >> 24) & 0xff), (c >> 32) & 0xff), (c >> 40) & 0xff), (c >> 48) & 0xff), (c >> 56) & 0xff)) by (bit_vector) requires s == mul(c, 0x0101_0101_0101_0101), (c >> 0) & 0xff <= 8, (c >> 8) & 0xff <= 8, (c >> 16) & 0xff <= 8, (c >> 24) & 0xff <= 8, (c >> 32) & 0xff <= 8, (c >> 40) & 0xff <= 8, (c >> 48) & 0xff <= 8, (c >> 56) & 0xff <= 8;
    assert(lane(s, 7) == psum(c, 7));
    
    assert(s >> 56 == (s >> 56) & 0xff) by (bit_vector);
    assert(s >> 53 == add(mul(8, (s >> 56) & 0xff), ((s >> 48) & 0xff) / 32)) by (bit_vector);
    assert(lane(s, 7) == psum(c, 7)); assert(lane(s, 6) == (s >> 48) & 0xff);
    assert forall|i: int| lt8(i) implies #[trigger] lane(xl8(c), i) == psum(c, i) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else { assert(i == 7); } }
    assert forall|i: int| lt8(i) implies 0 <= #[trigger] psum(c, i - 1) <= psum(c, i) <= 8 * (i + 1) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else { assert(i == 7); } }
}
/// r in every byte
pub proof fn lemma_spread(r: u64)
    requires r <= 255
    ensures forall|i: int| lt8(i) ==> #[trigger] lane(xl8(r), i) == r
{
    reveal(xl8);
    let s = xl8(r);
    assert((s >> 0) & 0xff == r) by (bit_vector) requires s == mul(r, 0x0101_0101_0101_0101), r <= 255; assert(lane(s, 0) == r); assert((s >> 8) & 0xff == r) by (bit_vector) requires s == mul(r, 0x0101_0101_0101_0101), r <= 255; assert(lane(s, 1) == r); assert((s >> 16) & 0xff == r) by (bit_vector) requires s == mul(r, 0x0101_0101_0101_0101), r <= 255; assert(lane(s, 2) == r); assert((s >> 24) & 0xff == r) by (bit_vector) requires s == mul(r, 0x0101_0101_0101_0101), r <= 255; assert(lane(s, 3) == r); assert((s >> 32) & 0xff == r) by (bit_vector) requires s == mul(r, 0x0101_0101_0101_0101), r <= 255; assert(lane(s, 4) == r); assert((s >> 40) & 0xff == r) by (bit_vector) requires s == mul(r, 0x0101_0101_0101_0101), r <= 255; assert(lane(s, 5) == r); assert((s >> 48) & 0xff == r) by (bit_vector) requires s == mul(r, 0x0101_0101_0101_0101), r <= 255; assert(lane(s, 6) == r); assert((s >> 56) & 0xff == r) by (bit_vector) requires s == mul(r, 0x0101_0101_0101_0101), r <= 255; assert(lane(s, 7) == r); 
    assert forall|i: int| lt8(i) implies #[trigger] lane(xl8(r), i) == r by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else { assert(i == 7); } }
}
/// how many bytes of the (non-decreasing) s are at most r
pub open spec fn count_le(s: u64, r: u64) -> u64 { xl8(f_le8(s, xl8(r)) >> 7) >> 56 }
pub proof fn lemma_count_le(s: u64, r: u64)
    requires r <= 127, forall|i: int| lt8(i) ==> #[trigger] lane(s, i) <= 127, forall|i: int| 0 <= i < 7 ==> #[trigger] lane(s, i) <= lane(s, i + 1)
    ensures count_le(s, r) <= 8, forall|i: int| lt8(i) ==> (i < count_le(s, r) <==> #[trigger] lane(s, i) <= r), xl8(f_le8(s, xl8(r)) >> 7) >> 53 == 8 * count_le(s, r)
{
    lemma_spread(r);
    let q = xl8(r); let m = f_le8(s, q); let n = m >> 7;
    lemma_le8(s, q);
    assert(lane(s, 0) <= 127); assert(lane(q, 0) == r); assert(lane(m, 0) == if lane(s, 0) <= r { 0x80u64 } else { 0 }); let m0 = (m >> 0) & 0xff; assert(m0 == lane(m, 0)); assert(lane(s, 1) <= 127); assert(lane(q, 1) == r); assert(lane(m, 1) == if lane(s, 1) <= r { 0x80u64 } else { 0 }); let m1 = (m >> 8) & 0xff; assert(m1 == lane(m, 1)); assert(lane(s, 2) <= 127); assert(lane(q, 2) == r); assert(lane(m, 2) == if lane(s, 2) <= r { 0x80u64 } else { 0 }); let m2 = (m >> 16) & 0xff; assert(m2 == lane(m, 2)); assert(lane(s, 3) <= 127); assert(lane(q, 3) == r); assert(lane(m, 3) == if lane(s, 3) <= r { 0x80u64 } else { 0 }); let m3 = (m >> 24) & 0xff; assert(m3 == lane(m, 3)); assert(lane(s, 4) <= 127); assert(lane(q, 4) == r); assert(lane(m, 4) == if lane(s, 4) <= r { 0x80u64 } else { 0 }); let m4 = (m >> 32) & 0xff; assert(m4 == lane(m, 4)); assert(lane(s, 5) <= 127); assert(lane(q, 5) == r); assert(lane(m, 5) == if lane(s, 5) <= r { 0x80u64 } else { 0 }); let m5 = (m >> 40) & 0xff; assert(m5 == lane(m, 5)); assert(lane(s, 6) <= 127); assert(lane(q, 6) == r); assert(lane(m, 6) == if lane(s, 6) <= r { 0x80u64 } else { 0 }); let m6 = (m >> 48) & 0xff; assert(m6 == lane(m, 6)); assert(lane(s, 7) <= 127); assert(lane(q, 7) == r); assert(lane(m, 7) == if lane(s, 7) <= r { 0x80u64 } else { 0 }); let m7 = (m >> 56) & 0xff; assert(m7 == lane(m, 7)); 
    assert(lane(s, 0) <= lane(s, 0int + 1)); assert(lane(s, 1) <= lane(s, 1int + 1)); assert(lane(s, 2) <= lane(s, 2int + 1)); assert(lane(s, 3) <= lane(s, 3int + 1)); assert(lane(s, 4) <= lane(s, 4int + 1)); assert(lane(s, 5) <= lane(s, 5int + 1)); assert(lane(s, 6) <= lane(s, 6int + 1)); 
    assert((n >> 0) & 0xff == ((m >> 0) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 0) == if lane(s, 0) <= r { 1u64 } else { 0 }); assert((n >> 8) & 0xff == ((m >> 8) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 1) == if lane(s, 1) <= r { 1u64 } else { 0 }); assert((n >> 16) & 0xff == ((m >> 16) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 2) == if lane(s, 2) <= r { 1u64 } else { 0 }); assert((n >> 24) & 0xff == ((m >> 24) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 3) == if lane(s, 3) <= r { 1u64 } else { 0 }); assert((n >> 32) & 0xff == ((m >> 32) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 4) == if lane(s, 4) <= r { 1u64 } else { 0 }); assert((n >> 40) & 0xff == ((m >> 40) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 5) == if lane(s, 5) <= r { 1u64 } else { 0 }); assert((n >> 48) & 0xff == ((m >> 48) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 6) == if lane(s, 6) <= r { 1u64 } else { 0 }); assert((n >> 56) & 0xff == ((m >> 56) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 7) == if lane(s, 7) <= r { 1u64 } else { 0 }); 
    assert forall|i: int| lt8(i) implies #[trigger] lane(n, i) <= 8 by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else { assert(i == 7); } }
    lemma_prefix(n);
    reveal_with_fuel(psum, 9);
    assert(lane(xl8(n), 6) == psum(n, 6));
    assert forall|i: int| lt8(i) implies (i < count_le(s, r) <==> #[trigger] lane(s, i) <= r) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else { assert(i == 7); } }
}
/// the bits of a byte, counted
pub open spec fn spread_bits(y: u64) -> u64 { xl8(f_nz8(xl8(y) & 0x8040_2010_0804_0201) >> 7) }
pub proof fn lemma_spread_bits(x: u64, k: int)
    requires lt8(k)
    ensures forall|i: int| lt8(i) ==> #[trigger] lane(spread_bits(lane(x, k)), i) == ones(bits_of(x), 8 * k + i + 1) - ones(bits_of(x), 8 * k),
{
    let y = lane(x, k); let kk = (8 * k) as u64;
    assert((x >> kk) & 0xff <= 0xff) by (bit_vector);
    reveal(xl8);
    let w = xl8(y) & 0x8040_2010_0804_0201; let m = f_nz8(w); let n = m >> 7;
    lemma_nz8(w);
    
    assert((w >> 0) & 0xff == y & (1u64 << 0)) by (bit_vector) requires w == mul(y, 0x0101_0101_0101_0101) & 0x8040_2010_0804_0201, y <= 0xff;
    assert(y & (1u64 << 0) == 0 <==> (x >> add(kk, 0)) & 1 == 0) by (bit_vector) requires y == (x >> kk) & 0xff, kk <= 56;
    lemma_bit01(x, (kk + 0) as u64);
    assert(lane(w, 0) == (w >> 0) & 0xff);
    assert(lane(m, 0) == if x.bit(8 * k + 0) { 0x80u64 } else { 0 }); let m0 = (m >> 0) & 0xff; assert(m0 == lane(m, 0)); 
    assert((w >> 8) & 0xff == y & (1u64 << 1)) by (bit_vector) requires w == mul(y, 0x0101_0101_0101_0101) & 0x8040_2010_0804_0201, y <= 0xff;
    assert(y & (1u64 << 1) == 0 <==> (x >> add(kk, 1)) & 1 == 0) by (bit_vector) requires y == (x >> kk) & 0xff, kk <= 56;
    lemma_bit01(x, (kk + 1) as u64);
    assert(lane(w, 1) == (w >> 8) & 0xff);
    assert(lane(m, 1) == if x.bit(8 * k + 1) { 0x80u64 } else { 0 }); let m1 = (m >> 8) & 0xff; assert(m1 == lane(m, 1)); 
    assert((w >> 16) & 0xff == y & (1u64 << 2)) by (bit_vector) requires w == mul(y, 0x0101_0101_0101_0101) & 0x8040_2010_0804_0201, y <= 0xff;
    assert(y & (1u64 << 2) == 0 <==> (x >> add(kk, 2)) & 1 == 0) by (bit_vector) requires y == (x >> kk) & 0xff, kk <= 56;
    lemma_bit01(x, (kk + 2) as u64);
    assert(lane(w, 2) == (w >> 16) & 0xff);
    assert(lane(m, 2) == if x.bit(8 * k + 2) { 0x80u64 } else { 0 }); let m2 = (m >> 16) & 0xff; assert(m2 == lane(m, 2)); 
    assert((w >> 24) & 0xff == y & (1u64 << 3)) by (bit_vector) requires w == mul(y, 0x0101_0101_0101_0101) & 0x8040_2010_0804_0201, y <= 0xff;
    assert(y & (1u64 << 3) == 0 <==> (x >> add(kk, 3)) & 1 == 0) by (bit_vector) requires y == (x >> kk) & 0xff, kk <= 56;
    lemma_bit01(x, (kk + 3) as u64);
    assert(lane(w, 3) == (w >> 24) & 0xff);
    assert(lane(m, 3) == if x.bit(8 * k + 3) { 0x80u64 } else { 0 }); let m3 = (m >> 24) & 0xff; assert(m3 == lane(m, 3)); 
    assert((w >> 32) & 0xff == y & (1u64 << 4)) by (bit_vector) requires w == mul(y, 0x0101_0101_0101_0101) & 0x8040_2010_0804_0201, y <= 0xff;
    assert(y & (1u64 << 4) == 0 <==> (x >> add(kk, 4)) & 1 == 0) by (bit_vector) requires y == (x >> kk) & 0xff, kk <= 56;
    lemma_bit01(x, (kk + 4) as u64);
    assert(lane(w, 4) == (w >> 32) & 0xff);
    assert(lane(m, 4) == if x.bit(8 * k + 4) { 0x80u64 } else { 0 }); let m4 = (m >> 32) & 0xff; assert(m4 == lane(m, 4)); 
    assert((w >> 40) & 0xff == y & (1u64 << 5)) by (bit_vector) requires w == mul(y, 0x0101_0101_0101_0101) & 0x8040_2010_0804_0201, y <= 0xff;
    assert(y & (1u64 << 5) == 0 <==> (x >> add(kk, 5)) & 1 == 0) by (bit_vector) requires y == (x >> kk) & 0xff, kk <= 56;
    lemma_bit01(x, (kk + 5) as u64);
    assert(lane(w, 5) == (w >> 40) & 0xff);
    assert(lane(m, 5) == if x.bit(8 * k + 5) { 0x80u64 } else { 0 }); let m5 = (m >> 40) & 0xff; assert(m5 == lane(m, 5)); 
    assert((w >> 48) & 0xff == y & (1u64 << 6)) by (bit_vector) requires w == mul(y, 0x0101_0101_0101_0101) & 0x8040_2010_0804_0201, y <= 0xff;
    assert(y & (1u64 << 6) == 0 <==> (x >> add(kk, 6)) & 1 == 0) by (bit_vector) requires y == (x >> kk) & 0xff, kk <= 56;
    lemma_bit01(x, (kk + 6) as u64);
    assert(lane(w, 6) == (w >> 48) & 0xff);
    assert(lane(m, 6) == if x.bit(8 * k + 6) { 0x80u64 } else { 0 }); let m6 = (m >> 48) & 0xff; assert(m6 == lane(m, 6)); 
    assert((w >> 56) & 0xff == y & (1u64 << 7)) by (bit_vector) requires w == mul(y, 0x0101_0101_0101_0101) & 0x8040_2010_0804_0201, y <= 0xff;
    assert(y & (1u64 << 7) == 0 <==> (x >> add(kk, 7)) & 1 == 0) by (bit_vector) requires y == (x >> kk) & 0xff, kk <= 56;
    lemma_bit01(x, (kk + 7) as u64);
    assert(lane(w, 7) == (w >> 56) & 0xff);
    assert(lane(m, 7) == if x.bit(8 * k + 7) { 0x80u64 } else { 0 }); let m7 = (m >> 56) & 0xff; assert(m7 == lane(m, 7)); 
    assert((n >> 0) & 0xff == ((m >> 0) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 0) == if x.bit(8 * k + 0) { 1u64 } else { 0 }); assert((n >> 8) & 0xff == ((m >> 8) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 1) == if x.bit(8 * k + 1) { 1u64 } else { 0 }); assert((n >> 16) & 0xff == ((m >> 16) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 2) == if x.bit(8 * k + 2) { 1u64 } else { 0 }); assert((n >> 24) & 0xff == ((m >> 24) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 3) == if x.bit(8 * k + 3) { 1u64 } else { 0 }); assert((n >> 32) & 0xff == ((m >> 32) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 4) == if x.bit(8 * k + 4) { 1u64 } else { 0 }); assert((n >> 40) & 0xff == ((m >> 40) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 5) == if x.bit(8 * k + 5) { 1u64 } else { 0 }); assert((n >> 48) & 0xff == ((m >> 48) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 6) == if x.bit(8 * k + 6) { 1u64 } else { 0 }); assert((n >> 56) & 0xff == ((m >> 56) & 0xff) >> 7) by (bit_vector) requires n == m >> 7, (m >> 0) & 0xff == 0x80 || (m >> 0) & 0xff == 0, (m >> 8) & 0xff == 0x80 || (m >> 8) & 0xff == 0, (m >> 16) & 0xff == 0x80 || (m >> 16) & 0xff == 0, (m >> 24) & 0xff == 0x80 || (m >> 24) & 0xff == 0, (m >> 32) & 0xff == 0x80 || (m >> 32) & 0xff == 0, (m >> 40) & 0xff == 0x80 || (m >> 40) & 0xff == 0, (m >> 48) & 0xff == 0x80 || (m >> 48) & 0xff == 0, (m >> 56) & 0xff == 0x80 || (m >> 56) & 0xff == 0;
    assert(0x80u64 >> 7 == 1 && 0u64 >> 7 == 0) by (bit_vector); assert(lane(n, 7) == if x.bit(8 * k + 7) { 1u64 } else { 0 }); 
    assert forall|i: int| lt8(i) implies #[trigger] lane(n, i) <= 8 by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else { assert(i == 7); } }
    lemma_prefix(n);
    reveal_with_fuel(psum, 9);
    assert(ones(bits_of(x), 8 * k + 0 + 1) == ones(bits_of(x), 8 * k + 0) + (if x.bit(8 * k + 0) { 1nat } else { 0nat })); assert(ones(bits_of(x), 8 * k + 1 + 1) == ones(bits_of(x), 8 * k + 1) + (if x.bit(8 * k + 1) { 1nat } else { 0nat })); assert(ones(bits_of(x), 8 * k + 2 + 1) == ones(bits_of(x), 8 * k + 2) + (if x.bit(8 * k + 2) { 1nat } else { 0nat })); assert(ones(bits_of(x), 8 * k + 3 + 1) == ones(bits_of(x), 8 * k + 3) + (if x.bit(8 * k + 3) { 1nat } else { 0nat })); assert(ones(bits_of(x), 8 * k + 4 + 1) == ones(bits_of(x), 8 * k + 4) + (if x.bit(8 * k + 4) { 1nat } else { 0nat })); assert(ones(bits_of(x), 8 * k + 5 + 1) == ones(bits_of(x), 8 * k + 5) + (if x.bit(8 * k + 5) { 1nat } else { 0nat })); assert(ones(bits_of(x), 8 * k + 6 + 1) == ones(bits_of(x), 8 * k + 6) + (if x.bit(8 * k + 6) { 1nat } else { 0nat })); assert(ones(bits_of(x), 8 * k + 7 + 1) == ones(bits_of(x), 8 * k + 7) + (if x.bit(8 * k + 7) { 1nat } else { 0nat })); 
    assert forall|i: int| lt8(i) implies #[trigger] lane(spread_bits(y), i) == ones(bits_of(x), 8 * k + i + 1) - ones(bits_of(x), 8 * k) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else { assert(i == 7); } }
}
/// the steps of select1_raw
pub open spec fn sel_s(x: u64) -> u64 { xl8(swar(x)) }
pub open spec fn sel_b(r: u64, x: u64) -> u64 { xl8(f_le8(sel_s(x), xl8(r)) >> 7) >> 53 }
pub open spec fn shr_wrap(x: u64, b: u64) -> u64 { if b >= 64 { x } else { x >> b } }
pub open spec fn sel_d(r: u64, x: u64) -> u64 { shr_wrap(sel_s(x) << 8, sel_b(r, x)) & 0xFF }
pub open spec fn sel_l(r: u64, x: u64) -> u64 { sub(r, sel_d(r, x)) }
pub open spec fn sel_t(r: u64, x: u64) -> u64 { spread_bits(shr_wrap(x, sel_b(r, x)) & 0xFF) }
pub open spec fn sel_r(r: u64, x: u64) -> u64 { add(sel_b(r, x), count_le(sel_t(r, x), sel_l(r, x))) }
/// how select finds the bit: after the bytes before it, by rank in its byte
proof fn lemma_total(x: u64)
    ensures forall|i: int| lt8(i) ==> #[trigger] lane(sel_s(x), i) == ones(bits_of(x), 8 * i + 8), forall|i: int| lt8(i) ==> #[trigger] lane(sel_s(x), i) <= 64, sel_s(x) >> 56 == ones(bits_of(x), 64)
{
    let c = swar(x);
    lemma_swar(x); 
    assert forall|i: int| lt8(i) implies #[trigger] lane(c, i) <= 8 by { assert(lane(c, i) == byte_ones(x, i)); }
    lemma_prefix(c);
    reveal_with_fuel(psum, 9);
    assert(ones(bits_of(x), 0) == 0);
    assert(lane(c, 0) == byte_ones(x, 0)); assert(psum(c, 0) == ones(bits_of(x), 8 * 0int + 8)); assert(lane(c, 1) == byte_ones(x, 1)); assert(psum(c, 1) == ones(bits_of(x), 8 * 1int + 8)); assert(lane(c, 2) == byte_ones(x, 2)); assert(psum(c, 2) == ones(bits_of(x), 8 * 2int + 8)); assert(lane(c, 3) == byte_ones(x, 3)); assert(psum(c, 3) == ones(bits_of(x), 8 * 3int + 8)); assert(lane(c, 4) == byte_ones(x, 4)); assert(psum(c, 4) == ones(bits_of(x), 8 * 4int + 8)); assert(lane(c, 5) == byte_ones(x, 5)); assert(psum(c, 5) == ones(bits_of(x), 8 * 5int + 8)); assert(lane(c, 6) == byte_ones(x, 6)); assert(psum(c, 6) == ones(bits_of(x), 8 * 6int + 8)); assert(lane(c, 7) == byte_ones(x, 7)); assert(psum(c, 7) == ones(bits_of(x), 8 * 7int + 8)); 
    assert forall|i: int| lt8(i) implies #[trigger] lane(sel_s(x), i) == ones(bits_of(x), 8 * i + 8) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else { assert(i == 7); } }
    assert forall|i: int| lt8(i) implies #[trigger] lane(sel_s(x), i) <= 64 by { if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else { assert(i == 7); } lemma_ones_bound(bits_of(x), 8 * i + 8); }
}
pub proof fn lemma_select(r: u64, x: u64)
    requires r < 64
    ensures sel_b(r, x) <= 64, sel_d(r, x) <= r, sel_r(r, x) == 72 || sel_r(r, x) < 64,
        sel_b(r, x) + count_le(sel_t(r, x), sel_l(r, x)) <= 72,
        sel_r(r, x) == 72 ==> ones(bits_of(x), 64) <= r,
        sel_r(r, x) < 64 ==> x.bit(sel_r(r, x) as int) && ones(bits_of(x), sel_r(r, x) as int) == r,
{
    let s = sel_s(x); let b = sel_b(r, x);
    lemma_total(x);
    assert forall|i: int| 0 <= i < 7 implies #[trigger] lane(s, i) <= lane(s, i + 1) by { assert(lt8(i + 1)); lemma_ones_mono(bits_of(x), 8 * i + 8, 8 * i + 16); }
    lemma_count_le(s, r);
    let k = count_le(s, r); assert(b == 8 * k);
    let k2 = if k == 8 { 0int } else { k as int };
    let s8 = s << 8;
    // the byte looked at
    assert(shr_wrap(x, b) & 0xFF == lane(x, k2)) by { if k == 8 { assert(x >> 0u64 == x) by (bit_vector); } }
    assert(sel_d(r, x) == if k == 8 || k == 0 { 0u64 } else { lane(s, k - 1) }) by {
        if k == 8 || k == 0 { assert((s << 8) & 0xff == 0 && ((s << 8) >> 0u64) & 0xff == 0) by (bit_vector); }
        else { let bm = (8 * (k - 1)) as u64; assert(((s << 8) >> b) & 0xff == (s >> bm) & 0xff) by (bit_vector) requires b == add(bm, 8), bm <= 48; }
    }
    if 0 < k < 8 { assert(lt8(k - 1)); assert(lane(s, k - 1) == ones(bits_of(x), 8 * k as int)); assert(lane(s, k - 1) <= r); }
    assert(ones(bits_of(x), 0) == 0);
    let t = sel_t(r, x); let l = sel_l(r, x);
    assert(l == r - sel_d(r, x));
    lemma_spread_bits(x, k2);
    assert forall|i: int| lt8(i) implies #[trigger] lane(t, i) <= 127 by { lemma_ones_bound(bits_of(x), 8 * k2 + i + 1); lemma_ones_mono(bits_of(x), 8 * k2, 8 * k2 + i + 1); assert(lane(t, i) == ones(bits_of(x), 8 * k2 + i + 1) - ones(bits_of(x), 8 * k2)); }
    assert forall|i: int| 0 <= i < 7 implies #[trigger] lane(t, i) <= lane(t, i + 1) by { assert(lt8(i) && lt8(i + 1)); lemma_ones_mono(bits_of(x), 8 * k2 + i + 1, 8 * k2 + i + 2); }
    lemma_count_le(t, l);
    let q = count_le(t, l);
    if k == 8 {
        assert(lane(s, 7) <= r); assert(lane(s, 0) <= r);
        assert forall|i: int| lt8(i) implies #[trigger] lane(t, i) <= l by { lemma_ones_mono(bits_of(x), i + 1, 8); assert(lane(s, 0) == ones(bits_of(x), 8)); }
        assert(lane(t, 7) <= l); assert(q == 8);
    } else {
        let kk = k as int;
        assert(lane(s, kk) > r); assert(lane(s, kk) == ones(bits_of(x), 8 * kk + 8)); assert(lane(t, 7) > l) ; assert(q < 8);
        let p = 8 * kk + q; let qq = q as int;
        assert(lane(t, qq) > l);
        assert(ones(bits_of(x), p + 1) > r);
        if q > 0 { assert(lt8(qq - 1)); assert(lane(t, qq - 1) <= l); assert(ones(bits_of(x), p) <= r); }
        assert(ones(bits_of(x), p) <= r);
        assert(ones(bits_of(x), p + 1) == ones(bits_of(x), p) + (if x.bit(p) { 1nat } else { 0nat }));
    }
}
//@ fn broadword::u_le8
ensures is_le8u(r, x, y)
//@ entry
proof { lemma_le8u(x, y); }
//@ fn broadword::le8
ensures is_le8(r, x, y)
//@ entry
proof { lemma_le8(x, y); }
//@ fn broadword::u_nz8
ensures is_nz8(r, x)
//@ entry
proof { lemma_nz8(x); }
//@ fn broadword::count_ones
ensures r == ones(bits_of(x), 64)
//@ entry
proof { lemma_swar(x); lemma_total(x); lemma_xl8(swar(x)); lemma_ones_bound(bits_of(x), 64); }
//@ fn broadword::select1_raw -> p
ensures p == 72 || p < 64, p == 72 ==> ones(bits_of(x), 64) <= r, p < 64 ==> x.bit(p as int) && ones(bits_of(x), p as int) == r
//@ entry
proof {
    lemma_ones_bound(bits_of(x), 64); lemma_calls(); lemma_swar(x);
    if r < 64 { lemma_select(r as u64, x); }
    assert forall|y: u64| y.wrapping_mul(0x0101_0101_0101_0101) == #[trigger] xl8(y) by { lemma_xl8(y); }
    assert forall|y: u64, b: u64| b <= 64 implies y.wrapping_shr(b as u32) == #[trigger] shr_wrap(y, b) by { assert(y >> 0u32 == y) by (bit_vector); }
}
//@ fn broadword::select1 -> p
ensures p is None ==> ones(bits_of(x), 64) <= r, p is Some ==> p->Some_0 < 64 && x.bit(p->Some_0 as int) && ones(bits_of(x), p->Some_0 as int) == r
//@ impl broadword::<BroadwordasRankSupport>
    open spec fn wf_rank(&self) -> bool { true }
    open spec fn rank_limit(&self) -> nat { 64 }
    open spec fn occ(&self, v: bool, n: int) -> nat {
        if v { ones(bits_of(self.0), n) } else { (n - ones(bits_of(self.0), n)) as nat }
    }
    proof fn law_occ(&self, v: bool) {
        assert forall|i: int| 0 <= i < self.rank_limit() implies #[trigger] self.occ(v, i) <= self.occ(v, i + 1) <= self.occ(v, i) + 1 by {
            lemma_ones_bound(bits_of(self.0), i); lemma_ones_bound(bits_of(self.0), i + 1);
        }
    }
//@ impl broadword::<BroadwordasBitRankSupport>
    proof fn law_bitocc(&self, n: int) { lemma_ones_bound(bits_of(self.0), n); }
//@ impl broadword::<BroadwordasSelect1Support>
    open spec fn wf_s1(&self) -> bool { true }
    open spec fn limit1(&self) -> nat { 64 }
    open spec fn occ1(&self, n: int) -> nat { ones(bits_of(self.0), n) }
//@ fn broadword::<BroadwordasBitRankSupport>::rank1
//@ entry
proof { crate::storage::lemma_ops_u64(); if position < 64 { crate::rank::prim::lemma_low(self.0, position as int + 1); crate::rank::prim::lemma_popcounts(self.0, position as int + 1); } }
//@ fn broadword::<BroadwordasBitRankSupport>::rank0
//@ entry
proof { crate::storage::lemma_ops_u64(); if position < 64 { crate::rank::prim::lemma_low(self.0, position as int + 1); crate::rank::prim::lemma_popcounts(self.0, position as int + 1); } }
//@ subst
(?<![\w.] )position \+ 1(?:u64)?(?! \*)|(?<![\w*] )1(?:u64)? \+ position => vx_add(position, 1)
