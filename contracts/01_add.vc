@file sign.rs
@item enum Sign
@file arch/x86_64/add.rs
@fn add_with_carry -> r
    ensures r.0 as nat + b2n(r.1) * B() == a as nat + b as nat + b2n(carry)
@fn sub_with_borrow -> r
    ensures a as int - b as int - b2n(borrow) as int == r.0 as int - b2n(r.1) * B()
@mod
use crate::vp_math::*;
@file arch/generic/add.rs
@fn add_with_carry -> r
@rewrite `c0 | c1` => `(c0 || c1)`
    ensures r.0 as nat + b2n(r.1) * B() == a as nat + b as nat + b2n(carry)
@fn sub_with_borrow -> r
@rewrite `b0 | b1` => `(b0 || b1)`
    ensures a as int - b as int - b2n(borrow) as int == r.0 as int - b2n(r.1) * B()
@mod
use crate::vp_math::*;

@file vp_std.rs
@mod
use crate::vp_math::*;
// Assumed contracts of the standard library (documented behaviour).
pub assume_specification [<u8 as From<bool>>::from] (b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0u8 });
pub assume_specification [<u16 as From<bool>>::from] (b: bool) -> (r: u16) ensures r == (if b { 1u16 } else { 0u16 });
pub assume_specification [<u32 as From<bool>>::from] (b: bool) -> (r: u32) ensures r == (if b { 1u32 } else { 0u32 });
pub assume_specification [<u64 as From<bool>>::from] (b: bool) -> (r: u64) ensures r == (if b { 1u64 } else { 0u64 });
pub assume_specification [<i16 as From<bool>>::from] (b: bool) -> (r: i16) ensures r == (if b { 1i16 } else { 0i16 });
pub assume_specification [<i32 as From<bool>>::from] (b: bool) -> (r: i32) ensures r == (if b { 1i32 } else { 0i32 });
pub assume_specification [<i64 as From<bool>>::from] (b: bool) -> (r: i64) ensures r == (if b { 1i64 } else { 0i64 });
pub assume_specification [u64::overflowing_add] (x: u64, y: u64) -> (r: (u64, bool))
    ensures r.0 as int == (if x + y > u64::MAX { x + y - 0x1_0000_0000_0000_0000 } else { x + y }), r.1 == (x + y > u64::MAX);
pub assume_specification [u32::overflowing_add] (x: u32, y: u32) -> (r: (u32, bool))
    ensures r.0 as int == (if x + y > u32::MAX { x + y - 0x1_0000_0000 } else { x + y }), r.1 == (x + y > u32::MAX);
pub assume_specification [u16::overflowing_add] (x: u16, y: u16) -> (r: (u16, bool))
    ensures r.0 as int == (if x + y > u16::MAX { x + y - 0x1_0000 } else { x + y }), r.1 == (x + y > u16::MAX);
pub assume_specification [u64::overflowing_sub] (x: u64, y: u64) -> (r: (u64, bool))
    ensures r.0 as int == (if x < y { x - y + 0x1_0000_0000_0000_0000 } else { x - y }), r.1 == (x < y);
pub assume_specification [u32::overflowing_sub] (x: u32, y: u32) -> (r: (u32, bool))
    ensures r.0 as int == (if x < y { x - y + 0x1_0000_0000 } else { x - y }), r.1 == (x < y);
pub assume_specification [u16::overflowing_sub] (x: u16, y: u16) -> (r: (u16, bool))
    ensures r.0 as int == (if x < y { x - y + 0x1_0000 } else { x - y }), r.1 == (x < y);
@if width=="x86_64"
pub assume_specification [core::arch::x86_64::_addcarry_u64] (c: u8, x: u64, y: u64, out: &mut u64) -> (r: u8)
    ensures r <= 1, *final(out) as nat + r as nat * B() == x as nat + y as nat + (if c != 0 { 1nat } else { 0nat });
pub assume_specification [core::arch::x86_64::_subborrow_u64] (c: u8, x: u64, y: u64, out: &mut u64) -> (r: u8)
    ensures r <= 1, *final(out) as int - r as int * B() == x as int - y as int - (if c != 0 { 1int } else { 0int });
@endif

@file vp_std.rs
@mod
pub assume_specification [u64::wrapping_neg] (x: u64) -> (r: u64) ensures r as int == (if x == 0 { 0 } else { 0x1_0000_0000_0000_0000 - x });
pub assume_specification [u32::wrapping_neg] (x: u32) -> (r: u32) ensures r as int == (if x == 0 { 0 } else { 0x1_0000_0000 - x });
pub assume_specification [u16::wrapping_neg] (x: u16) -> (r: u16) ensures r as int == (if x == 0 { 0 } else { 0x1_0000 - x });
