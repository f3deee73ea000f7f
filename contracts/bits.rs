// Shifts, masks and truncating casts as arithmetic (bit-vector facts, each proved here).  Used only when a
// function that shifts or masks is refused without them.
use vstd::prelude::*;
verus! {
pub broadcast proof fn l_shl8_u16(x: u16) requires x < 256 ensures #[trigger] (x << 8) == x * 256 { assert(x < 256 ==> (x << 8) == mul(x, 256)) by (bit_vector); }
pub broadcast proof fn l_shr8_u16(x: u16) ensures #[trigger] (x >> 8) == x / 256 { assert((x >> 8) == x / 256) by (bit_vector); }
pub broadcast proof fn l_and_u16(x: u16) ensures #[trigger] (x & 0xff) == x % 256 { assert((x & 0xff) == x % 256) by (bit_vector); }
pub broadcast proof fn l_trunc_u16(x: u16) ensures #[trigger] (x as u8) == x % 256 { assert((x as u8) == x % 256) by (bit_vector); }
pub broadcast proof fn l_or_u16(x: u16, y: u16) requires (x % 256 == 0 && y < 256) || (y % 256 == 0 && x < 256) ensures #[trigger] (x | y) == x + y { assert((x % 256 == 0 && y < 256) ==> (x | y) == x + y) by (bit_vector); assert((y % 256 == 0 && x < 256) ==> (x | y) == x + y) by (bit_vector); }
pub broadcast proof fn l_shl8_u32(x: u32) requires x < 16777216 ensures #[trigger] (x << 8) == x * 256 { assert(x < 16777216 ==> (x << 8) == mul(x, 256)) by (bit_vector); }
pub broadcast proof fn l_shr8_u32(x: u32) ensures #[trigger] (x >> 8) == x / 256 { assert((x >> 8) == x / 256) by (bit_vector); }
pub broadcast proof fn l_shl16_u32(x: u32) requires x < 65536 ensures #[trigger] (x << 16) == x * 65536 { assert(x < 65536 ==> (x << 16) == mul(x, 65536)) by (bit_vector); }
pub broadcast proof fn l_shr16_u32(x: u32) ensures #[trigger] (x >> 16) == x / 65536 { assert((x >> 16) == x / 65536) by (bit_vector); }
pub broadcast proof fn l_shl24_u32(x: u32) requires x < 256 ensures #[trigger] (x << 24) == x * 16777216 { assert(x < 256 ==> (x << 24) == mul(x, 16777216)) by (bit_vector); }
pub broadcast proof fn l_shr24_u32(x: u32) ensures #[trigger] (x >> 24) == x / 16777216 { assert((x >> 24) == x / 16777216) by (bit_vector); }
pub broadcast proof fn l_and_u32(x: u32) ensures #[trigger] (x & 0xff) == x % 256 { assert((x & 0xff) == x % 256) by (bit_vector); }
pub broadcast proof fn l_trunc_u32(x: u32) ensures #[trigger] (x as u8) == x % 256 { assert((x as u8) == x % 256) by (bit_vector); }
pub broadcast proof fn l_or_u32(x: u32, y: u32) requires (x % 256 == 0 && y < 256) || (y % 256 == 0 && x < 256) || (x % 65536 == 0 && y < 65536) || (y % 65536 == 0 && x < 65536) || (x % 16777216 == 0 && y < 16777216) || (y % 16777216 == 0 && x < 16777216) ensures #[trigger] (x | y) == x + y { assert((x % 256 == 0 && y < 256) ==> (x | y) == x + y) by (bit_vector); assert((y % 256 == 0 && x < 256) ==> (x | y) == x + y) by (bit_vector); assert((x % 65536 == 0 && y < 65536) ==> (x | y) == x + y) by (bit_vector); assert((y % 65536 == 0 && x < 65536) ==> (x | y) == x + y) by (bit_vector); assert((x % 16777216 == 0 && y < 16777216) ==> (x | y) == x + y) by (bit_vector); assert((y % 16777216 == 0 && x < 16777216) ==> (x | y) == x + y) by (bit_vector); }
pub broadcast proof fn l_shl8_u64(x: u64) requires x < 72057594037927936 ensures #[trigger] (x << 8) == x * 256 { assert(x < 72057594037927936 ==> (x << 8) == mul(x, 256)) by (bit_vector); }
pub broadcast proof fn l_shr8_u64(x: u64) ensures #[trigger] (x >> 8) == x / 256 { assert((x >> 8) == x / 256) by (bit_vector); }
pub broadcast proof fn l_shl16_u64(x: u64) requires x < 281474976710656 ensures #[trigger] (x << 16) == x * 65536 { assert(x < 281474976710656 ==> (x << 16) == mul(x, 65536)) by (bit_vector); }
pub broadcast proof fn l_shr16_u64(x: u64) ensures #[trigger] (x >> 16) == x / 65536 { assert((x >> 16) == x / 65536) by (bit_vector); }
pub broadcast proof fn l_shl24_u64(x: u64) requires x < 1099511627776 ensures #[trigger] (x << 24) == x * 16777216 { assert(x < 1099511627776 ==> (x << 24) == mul(x, 16777216)) by (bit_vector); }
pub broadcast proof fn l_shr24_u64(x: u64) ensures #[trigger] (x >> 24) == x / 16777216 { assert((x >> 24) == x / 16777216) by (bit_vector); }
pub broadcast proof fn l_and_u64(x: u64) ensures #[trigger] (x & 0xff) == x % 256 { assert((x & 0xff) == x % 256) by (bit_vector); }
pub broadcast proof fn l_trunc_u64(x: u64) ensures #[trigger] (x as u8) == x % 256 { assert((x as u8) == x % 256) by (bit_vector); }
pub broadcast proof fn l_or_u64(x: u64, y: u64) requires (x % 256 == 0 && y < 256) || (y % 256 == 0 && x < 256) || (x % 65536 == 0 && y < 65536) || (y % 65536 == 0 && x < 65536) || (x % 16777216 == 0 && y < 16777216) || (y % 16777216 == 0 && x < 16777216) ensures #[trigger] (x | y) == x + y { assert((x % 256 == 0 && y < 256) ==> (x | y) == x + y) by (bit_vector); assert((y % 256 == 0 && x < 256) ==> (x | y) == x + y) by (bit_vector); assert((x % 65536 == 0 && y < 65536) ==> (x | y) == x + y) by (bit_vector); assert((y % 65536 == 0 && x < 65536) ==> (x | y) == x + y) by (bit_vector); assert((x % 16777216 == 0 && y < 16777216) ==> (x | y) == x + y) by (bit_vector); assert((y % 16777216 == 0 && x < 16777216) ==> (x | y) == x + y) by (bit_vector); }
pub broadcast proof fn l_shl8_usize(x: usize) requires x < 16777216 ensures #[trigger] (x << 8) == x * 256 { assert(x < 16777216 ==> (x << 8) == mul(x, 256)) by (bit_vector); }
pub broadcast proof fn l_shr8_usize(x: usize) ensures #[trigger] (x >> 8) == x / 256 { assert((x >> 8) == x / 256) by (bit_vector); }
pub broadcast proof fn l_shl16_usize(x: usize) requires x < 65536 ensures #[trigger] (x << 16) == x * 65536 { assert(x < 65536 ==> (x << 16) == mul(x, 65536)) by (bit_vector); }
pub broadcast proof fn l_shr16_usize(x: usize) ensures #[trigger] (x >> 16) == x / 65536 { assert((x >> 16) == x / 65536) by (bit_vector); }
pub broadcast proof fn l_shl24_usize(x: usize) requires x < 256 ensures #[trigger] (x << 24) == x * 16777216 { assert(x < 256 ==> (x << 24) == mul(x, 16777216)) by (bit_vector); }
pub broadcast proof fn l_shr24_usize(x: usize) ensures #[trigger] (x >> 24) == x / 16777216 { assert((x >> 24) == x / 16777216) by (bit_vector); }
pub broadcast proof fn l_and_usize(x: usize) ensures #[trigger] (x & 0xff) == x % 256 { assert((x & 0xff) == x % 256) by (bit_vector); }
pub broadcast proof fn l_trunc_usize(x: usize) ensures #[trigger] (x as u8) == x % 256 { assert((x as u8) == x % 256) by (bit_vector); }
pub broadcast proof fn l_or_usize(x: usize, y: usize) requires (x % 256 == 0 && y < 256) || (y % 256 == 0 && x < 256) || (x % 65536 == 0 && y < 65536) || (y % 65536 == 0 && x < 65536) || (x % 16777216 == 0 && y < 16777216) || (y % 16777216 == 0 && x < 16777216) ensures #[trigger] (x | y) == x + y { assert((x % 256 == 0 && y < 256) ==> (x | y) == x + y) by (bit_vector); assert((y % 256 == 0 && x < 256) ==> (x | y) == x + y) by (bit_vector); assert((x % 65536 == 0 && y < 65536) ==> (x | y) == x + y) by (bit_vector); assert((y % 65536 == 0 && x < 65536) ==> (x | y) == x + y) by (bit_vector); assert((x % 16777216 == 0 && y < 16777216) ==> (x | y) == x + y) by (bit_vector); assert((y % 16777216 == 0 && x < 16777216) ==> (x | y) == x + y) by (bit_vector); }
pub broadcast group group_bits { l_shl8_u16, l_shr8_u16, l_and_u16, l_trunc_u16, l_or_u16, l_shl8_u32, l_shr8_u32, l_shl16_u32, l_shr16_u32, l_shl24_u32, l_shr24_u32, l_and_u32, l_trunc_u32, l_or_u32, l_shl8_u64, l_shr8_u64, l_shl16_u64, l_shr16_u64, l_shl24_u64, l_shr24_u64, l_and_u64, l_trunc_u64, l_or_u64, l_shl8_usize, l_shr8_usize, l_shl16_usize, l_shr16_usize, l_shl24_usize, l_shr24_usize, l_and_usize, l_trunc_usize, l_or_usize } }
