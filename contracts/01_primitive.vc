@file primitive.rs
@expand impl_primitive_signed
@if bits==64
@fn PrimitiveSigned for i64::to_sign_magnitude -> r
@method2fn sword_to_sign_magnitude i64 Self::Unsigned=u64
    ensures vp_self as int == crate::add::sgn(r.0) * r.1 as int, r.0 == (if vp_self >= 0 { Sign::Positive } else { Sign::Negative })
@start
proof {
    let x = vp_self;
    assert(x < 0 ==> (x as u64) as int == x as int + 0x1_0000_0000_0000_0000) by (bit_vector);
    assert(x >= 0 ==> (x as u64) as int == x as int) by (bit_vector);
}
@endif
@if bits==32
@fn PrimitiveSigned for i32::to_sign_magnitude -> r
@method2fn sword_to_sign_magnitude i32 Self::Unsigned=u32
    ensures vp_self as int == crate::add::sgn(r.0) * r.1 as int, r.0 == (if vp_self >= 0 { Sign::Positive } else { Sign::Negative })
@start
proof {
    let x = vp_self;
    assert(x < 0 ==> (x as u32) as int == x as int + 0x1_0000_0000) by (bit_vector);
    assert(x >= 0 ==> (x as u32) as int == x as int) by (bit_vector);
}
@endif
@if bits==16
@fn PrimitiveSigned for i16::to_sign_magnitude -> r
@method2fn sword_to_sign_magnitude i16 Self::Unsigned=u16
    ensures vp_self as int == crate::add::sgn(r.0) * r.1 as int, r.0 == (if vp_self >= 0 { Sign::Positive } else { Sign::Negative })
@start
proof {
    let x = vp_self;
    assert(x < 0 ==> (x as u16) as int == x as int + 0x1_0000) by (bit_vector);
    assert(x >= 0 ==> (x as u16) as int == x as int) by (bit_vector);
}
@endif
