@file add_ops.rs
@expand impl_add_ubig_unsigned
@expand impl_add_ubig_signed
@expand impl_add_ibig_primitive
@expand forward_binop_first_arg_by_value
@expand forward_binop_second_arg_by_value
@expand forward_binop_swap_args
@expand forward_binop_assign_arg_by_value
@fn Add < u8 > for UBig::add -> r
@rewrite `self . add_unsigned ( rhs )` => `ubig_add_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < u8 > for & UBig::add -> r
@rewrite `self . add_ref_unsigned ( rhs )` => `ubig_add_ref_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & u8 > for UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & u8 > for & 'a UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < UBig > for u8::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for u8::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < UBig > for & 'a u8::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for & 'b u8::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < u8 > for UBig::add_assign
@rewrite `self . add_assign_unsigned ( rhs )` => `ubig_add_assign_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & u8 > for UBig::add_assign
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < u8 > for UBig::sub -> r
@rewrite `self . sub_unsigned ( rhs )` => `ubig_sub_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < u8 > for & UBig::sub -> r
@rewrite `self . sub_ref_unsigned ( rhs )` => `ubig_sub_ref_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < & u8 > for UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & u8 > for & 'a UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn SubAssign < u8 > for UBig::sub_assign
@rewrite `self . sub_assign_unsigned ( rhs )` => `ubig_sub_assign_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & u8 > for UBig::sub_assign
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < u16 > for UBig::add -> r
@rewrite `self . add_unsigned ( rhs )` => `ubig_add_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < u16 > for & UBig::add -> r
@rewrite `self . add_ref_unsigned ( rhs )` => `ubig_add_ref_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & u16 > for UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & u16 > for & 'a UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < UBig > for u16::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for u16::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < UBig > for & 'a u16::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for & 'b u16::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < u16 > for UBig::add_assign
@rewrite `self . add_assign_unsigned ( rhs )` => `ubig_add_assign_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & u16 > for UBig::add_assign
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < u16 > for UBig::sub -> r
@rewrite `self . sub_unsigned ( rhs )` => `ubig_sub_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < u16 > for & UBig::sub -> r
@rewrite `self . sub_ref_unsigned ( rhs )` => `ubig_sub_ref_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < & u16 > for UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & u16 > for & 'a UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn SubAssign < u16 > for UBig::sub_assign
@rewrite `self . sub_assign_unsigned ( rhs )` => `ubig_sub_assign_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & u16 > for UBig::sub_assign
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < u32 > for UBig::add -> r
@rewrite `self . add_unsigned ( rhs )` => `ubig_add_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < u32 > for & UBig::add -> r
@rewrite `self . add_ref_unsigned ( rhs )` => `ubig_add_ref_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & u32 > for UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & u32 > for & 'a UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < UBig > for u32::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for u32::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < UBig > for & 'a u32::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for & 'b u32::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < u32 > for UBig::add_assign
@rewrite `self . add_assign_unsigned ( rhs )` => `ubig_add_assign_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & u32 > for UBig::add_assign
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < u32 > for UBig::sub -> r
@rewrite `self . sub_unsigned ( rhs )` => `ubig_sub_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < u32 > for & UBig::sub -> r
@rewrite `self . sub_ref_unsigned ( rhs )` => `ubig_sub_ref_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < & u32 > for UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & u32 > for & 'a UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn SubAssign < u32 > for UBig::sub_assign
@rewrite `self . sub_assign_unsigned ( rhs )` => `ubig_sub_assign_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & u32 > for UBig::sub_assign
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < u64 > for UBig::add -> r
@rewrite `self . add_unsigned ( rhs )` => `ubig_add_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < u64 > for & UBig::add -> r
@rewrite `self . add_ref_unsigned ( rhs )` => `ubig_add_ref_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & u64 > for UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & u64 > for & 'a UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < UBig > for u64::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for u64::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < UBig > for & 'a u64::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for & 'b u64::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < u64 > for UBig::add_assign
@rewrite `self . add_assign_unsigned ( rhs )` => `ubig_add_assign_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & u64 > for UBig::add_assign
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < u64 > for UBig::sub -> r
@rewrite `self . sub_unsigned ( rhs )` => `ubig_sub_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < u64 > for & UBig::sub -> r
@rewrite `self . sub_ref_unsigned ( rhs )` => `ubig_sub_ref_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < & u64 > for UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & u64 > for & 'a UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn SubAssign < u64 > for UBig::sub_assign
@rewrite `self . sub_assign_unsigned ( rhs )` => `ubig_sub_assign_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & u64 > for UBig::sub_assign
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < u128 > for UBig::add -> r
@rewrite `self . add_unsigned ( rhs )` => `ubig_add_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < u128 > for & UBig::add -> r
@rewrite `self . add_ref_unsigned ( rhs )` => `ubig_add_ref_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & u128 > for UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & u128 > for & 'a UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < UBig > for u128::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for u128::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < UBig > for & 'a u128::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for & 'b u128::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < u128 > for UBig::add_assign
@rewrite `self . add_assign_unsigned ( rhs )` => `ubig_add_assign_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & u128 > for UBig::add_assign
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < u128 > for UBig::sub -> r
@rewrite `self . sub_unsigned ( rhs )` => `ubig_sub_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < u128 > for & UBig::sub -> r
@rewrite `self . sub_ref_unsigned ( rhs )` => `ubig_sub_ref_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < & u128 > for UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & u128 > for & 'a UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn SubAssign < u128 > for UBig::sub_assign
@rewrite `self . sub_assign_unsigned ( rhs )` => `ubig_sub_assign_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & u128 > for UBig::sub_assign
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < usize > for UBig::add -> r
@rewrite `self . add_unsigned ( rhs )` => `ubig_add_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < usize > for & UBig::add -> r
@rewrite `self . add_ref_unsigned ( rhs )` => `ubig_add_ref_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & usize > for UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & usize > for & 'a UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < UBig > for usize::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for usize::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < UBig > for & 'a usize::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for & 'b usize::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < usize > for UBig::add_assign
@rewrite `self . add_assign_unsigned ( rhs )` => `ubig_add_assign_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & usize > for UBig::add_assign
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < usize > for UBig::sub -> r
@rewrite `self . sub_unsigned ( rhs )` => `ubig_sub_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < usize > for & UBig::sub -> r
@rewrite `self . sub_ref_unsigned ( rhs )` => `ubig_sub_ref_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < & usize > for UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & usize > for & 'a UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn SubAssign < usize > for UBig::sub_assign
@rewrite `self . sub_assign_unsigned ( rhs )` => `ubig_sub_assign_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & usize > for UBig::sub_assign
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < i8 > for UBig::add -> r
@rewrite `self . add_signed ( rhs )` => `ubig_add_signed_i8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < i8 > for & UBig::add -> r
@rewrite `self . add_ref_signed ( rhs )` => `ubig_add_ref_signed_i8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & i8 > for UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & i8 > for & 'a UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < UBig > for i8::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for i8::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < UBig > for & 'a i8::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for & 'b i8::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < i8 > for UBig::add_assign
@rewrite `self . add_assign_signed ( rhs )` => `ubig_add_assign_signed_i8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & i8 > for UBig::add_assign
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < i8 > for UBig::sub -> r
@rewrite `self . sub_signed ( rhs )` => `ubig_sub_signed_i8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < i8 > for & UBig::sub -> r
@rewrite `self . sub_ref_signed ( rhs )` => `ubig_sub_ref_signed_i8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < & i8 > for UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & i8 > for & 'a UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn SubAssign < i8 > for UBig::sub_assign
@rewrite `self . sub_assign_signed ( rhs )` => `ubig_sub_assign_signed_i8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & i8 > for UBig::sub_assign
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < i16 > for UBig::add -> r
@rewrite `self . add_signed ( rhs )` => `ubig_add_signed_i16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < i16 > for & UBig::add -> r
@rewrite `self . add_ref_signed ( rhs )` => `ubig_add_ref_signed_i16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & i16 > for UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & i16 > for & 'a UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < UBig > for i16::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for i16::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < UBig > for & 'a i16::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for & 'b i16::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < i16 > for UBig::add_assign
@rewrite `self . add_assign_signed ( rhs )` => `ubig_add_assign_signed_i16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & i16 > for UBig::add_assign
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < i16 > for UBig::sub -> r
@rewrite `self . sub_signed ( rhs )` => `ubig_sub_signed_i16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < i16 > for & UBig::sub -> r
@rewrite `self . sub_ref_signed ( rhs )` => `ubig_sub_ref_signed_i16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < & i16 > for UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & i16 > for & 'a UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn SubAssign < i16 > for UBig::sub_assign
@rewrite `self . sub_assign_signed ( rhs )` => `ubig_sub_assign_signed_i16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & i16 > for UBig::sub_assign
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < i32 > for UBig::add -> r
@rewrite `self . add_signed ( rhs )` => `ubig_add_signed_i32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < i32 > for & UBig::add -> r
@rewrite `self . add_ref_signed ( rhs )` => `ubig_add_ref_signed_i32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & i32 > for UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & i32 > for & 'a UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < UBig > for i32::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for i32::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < UBig > for & 'a i32::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for & 'b i32::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < i32 > for UBig::add_assign
@rewrite `self . add_assign_signed ( rhs )` => `ubig_add_assign_signed_i32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & i32 > for UBig::add_assign
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < i32 > for UBig::sub -> r
@rewrite `self . sub_signed ( rhs )` => `ubig_sub_signed_i32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < i32 > for & UBig::sub -> r
@rewrite `self . sub_ref_signed ( rhs )` => `ubig_sub_ref_signed_i32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < & i32 > for UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & i32 > for & 'a UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn SubAssign < i32 > for UBig::sub_assign
@rewrite `self . sub_assign_signed ( rhs )` => `ubig_sub_assign_signed_i32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & i32 > for UBig::sub_assign
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < i64 > for UBig::add -> r
@rewrite `self . add_signed ( rhs )` => `ubig_add_signed_i64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < i64 > for & UBig::add -> r
@rewrite `self . add_ref_signed ( rhs )` => `ubig_add_ref_signed_i64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & i64 > for UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & i64 > for & 'a UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < UBig > for i64::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for i64::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < UBig > for & 'a i64::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for & 'b i64::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < i64 > for UBig::add_assign
@rewrite `self . add_assign_signed ( rhs )` => `ubig_add_assign_signed_i64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & i64 > for UBig::add_assign
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < i64 > for UBig::sub -> r
@rewrite `self . sub_signed ( rhs )` => `ubig_sub_signed_i64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < i64 > for & UBig::sub -> r
@rewrite `self . sub_ref_signed ( rhs )` => `ubig_sub_ref_signed_i64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < & i64 > for UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & i64 > for & 'a UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn SubAssign < i64 > for UBig::sub_assign
@rewrite `self . sub_assign_signed ( rhs )` => `ubig_sub_assign_signed_i64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & i64 > for UBig::sub_assign
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < i128 > for UBig::add -> r
@rewrite `self . add_signed ( rhs )` => `ubig_add_signed_i128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < i128 > for & UBig::add -> r
@rewrite `self . add_ref_signed ( rhs )` => `ubig_add_ref_signed_i128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & i128 > for UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & i128 > for & 'a UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < UBig > for i128::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for i128::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < UBig > for & 'a i128::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for & 'b i128::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < i128 > for UBig::add_assign
@rewrite `self . add_assign_signed ( rhs )` => `ubig_add_assign_signed_i128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & i128 > for UBig::add_assign
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < i128 > for UBig::sub -> r
@rewrite `self . sub_signed ( rhs )` => `ubig_sub_signed_i128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < i128 > for & UBig::sub -> r
@rewrite `self . sub_ref_signed ( rhs )` => `ubig_sub_ref_signed_i128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < & i128 > for UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & i128 > for & 'a UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn SubAssign < i128 > for UBig::sub_assign
@rewrite `self . sub_assign_signed ( rhs )` => `ubig_sub_assign_signed_i128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & i128 > for UBig::sub_assign
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < isize > for UBig::add -> r
@rewrite `self . add_signed ( rhs )` => `ubig_add_signed_isize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < isize > for & UBig::add -> r
@rewrite `self . add_ref_signed ( rhs )` => `ubig_add_ref_signed_isize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & isize > for UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & isize > for & 'a UBig::add -> r
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < UBig > for isize::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for isize::add -> r
@pre rhs.wf()
@panics (self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < UBig > for & 'a isize::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a UBig > for & 'b isize::add -> r
@pre rhs.wf()
@panics (*self as int) + (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < isize > for UBig::add_assign
@rewrite `self . add_assign_signed ( rhs )` => `ubig_add_assign_signed_isize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) + (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & isize > for UBig::add_assign
@pre self.wf()
@panics (self.v() as int) + (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < isize > for UBig::sub -> r
@rewrite `self . sub_signed ( rhs )` => `ubig_sub_signed_isize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < isize > for & UBig::sub -> r
@rewrite `self . sub_ref_signed ( rhs )` => `ubig_sub_ref_signed_isize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < & isize > for UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & isize > for & 'a UBig::sub -> r
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn SubAssign < isize > for UBig::sub_assign
@rewrite `self . sub_assign_signed ( rhs )` => `ubig_sub_assign_signed_isize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) - (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & isize > for UBig::sub_assign
@pre self.wf()
@panics (self.v() as int) - (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < u8 > for IBig::add -> r
@rewrite `self . add_primitive ( rhs )` => `ibig_add_primitive_u8(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < u8 > for & IBig::add -> r
@rewrite `self . add_ref_primitive ( rhs )` => `ibig_add_ref_primitive_u8(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & u8 > for IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & u8 > for & 'a IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < IBig > for u8::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for u8::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < IBig > for & 'a u8::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for & 'b u8::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < u8 > for IBig::add_assign
@rewrite `self . add_assign_primitive ( rhs )` => `ibig_add_assign_primitive_u8(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & u8 > for IBig::add_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < u8 > for IBig::sub -> r
@rewrite `self . sub_primitive ( rhs )` => `ibig_sub_primitive_u8(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < u8 > for & IBig::sub -> r
@rewrite `self . sub_ref_primitive ( rhs )` => `ibig_sub_ref_primitive_u8(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < IBig > for u8::sub -> r
@rewrite `rhs . sub_from_primitive ( self )` => `ibig_sub_from_primitive_u8(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & IBig > for u8::sub -> r
@rewrite `rhs . sub_ref_from_primitive ( self )` => `ibig_sub_ref_from_primitive_u8(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & u8 > for IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & u8 > for & 'a IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < IBig > for & u8::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn Sub < & 'a IBig > for & u8::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn SubAssign < u8 > for IBig::sub_assign
@rewrite `self . sub_assign_primitive ( rhs )` => `ibig_sub_assign_primitive_u8(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & u8 > for IBig::sub_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < u16 > for IBig::add -> r
@rewrite `self . add_primitive ( rhs )` => `ibig_add_primitive_u16(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < u16 > for & IBig::add -> r
@rewrite `self . add_ref_primitive ( rhs )` => `ibig_add_ref_primitive_u16(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & u16 > for IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & u16 > for & 'a IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < IBig > for u16::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for u16::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < IBig > for & 'a u16::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for & 'b u16::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < u16 > for IBig::add_assign
@rewrite `self . add_assign_primitive ( rhs )` => `ibig_add_assign_primitive_u16(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & u16 > for IBig::add_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < u16 > for IBig::sub -> r
@rewrite `self . sub_primitive ( rhs )` => `ibig_sub_primitive_u16(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < u16 > for & IBig::sub -> r
@rewrite `self . sub_ref_primitive ( rhs )` => `ibig_sub_ref_primitive_u16(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < IBig > for u16::sub -> r
@rewrite `rhs . sub_from_primitive ( self )` => `ibig_sub_from_primitive_u16(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & IBig > for u16::sub -> r
@rewrite `rhs . sub_ref_from_primitive ( self )` => `ibig_sub_ref_from_primitive_u16(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & u16 > for IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & u16 > for & 'a IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < IBig > for & u16::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn Sub < & 'a IBig > for & u16::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn SubAssign < u16 > for IBig::sub_assign
@rewrite `self . sub_assign_primitive ( rhs )` => `ibig_sub_assign_primitive_u16(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & u16 > for IBig::sub_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < u32 > for IBig::add -> r
@rewrite `self . add_primitive ( rhs )` => `ibig_add_primitive_u32(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < u32 > for & IBig::add -> r
@rewrite `self . add_ref_primitive ( rhs )` => `ibig_add_ref_primitive_u32(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & u32 > for IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & u32 > for & 'a IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < IBig > for u32::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for u32::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < IBig > for & 'a u32::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for & 'b u32::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < u32 > for IBig::add_assign
@rewrite `self . add_assign_primitive ( rhs )` => `ibig_add_assign_primitive_u32(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & u32 > for IBig::add_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < u32 > for IBig::sub -> r
@rewrite `self . sub_primitive ( rhs )` => `ibig_sub_primitive_u32(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < u32 > for & IBig::sub -> r
@rewrite `self . sub_ref_primitive ( rhs )` => `ibig_sub_ref_primitive_u32(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < IBig > for u32::sub -> r
@rewrite `rhs . sub_from_primitive ( self )` => `ibig_sub_from_primitive_u32(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & IBig > for u32::sub -> r
@rewrite `rhs . sub_ref_from_primitive ( self )` => `ibig_sub_ref_from_primitive_u32(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & u32 > for IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & u32 > for & 'a IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < IBig > for & u32::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn Sub < & 'a IBig > for & u32::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn SubAssign < u32 > for IBig::sub_assign
@rewrite `self . sub_assign_primitive ( rhs )` => `ibig_sub_assign_primitive_u32(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & u32 > for IBig::sub_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < u64 > for IBig::add -> r
@rewrite `self . add_primitive ( rhs )` => `ibig_add_primitive_u64(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < u64 > for & IBig::add -> r
@rewrite `self . add_ref_primitive ( rhs )` => `ibig_add_ref_primitive_u64(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & u64 > for IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & u64 > for & 'a IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < IBig > for u64::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for u64::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < IBig > for & 'a u64::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for & 'b u64::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < u64 > for IBig::add_assign
@rewrite `self . add_assign_primitive ( rhs )` => `ibig_add_assign_primitive_u64(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & u64 > for IBig::add_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < u64 > for IBig::sub -> r
@rewrite `self . sub_primitive ( rhs )` => `ibig_sub_primitive_u64(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < u64 > for & IBig::sub -> r
@rewrite `self . sub_ref_primitive ( rhs )` => `ibig_sub_ref_primitive_u64(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < IBig > for u64::sub -> r
@rewrite `rhs . sub_from_primitive ( self )` => `ibig_sub_from_primitive_u64(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & IBig > for u64::sub -> r
@rewrite `rhs . sub_ref_from_primitive ( self )` => `ibig_sub_ref_from_primitive_u64(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & u64 > for IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & u64 > for & 'a IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < IBig > for & u64::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn Sub < & 'a IBig > for & u64::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn SubAssign < u64 > for IBig::sub_assign
@rewrite `self . sub_assign_primitive ( rhs )` => `ibig_sub_assign_primitive_u64(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & u64 > for IBig::sub_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < u128 > for IBig::add -> r
@rewrite `self . add_primitive ( rhs )` => `ibig_add_primitive_u128(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < u128 > for & IBig::add -> r
@rewrite `self . add_ref_primitive ( rhs )` => `ibig_add_ref_primitive_u128(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & u128 > for IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & u128 > for & 'a IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < IBig > for u128::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for u128::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < IBig > for & 'a u128::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for & 'b u128::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < u128 > for IBig::add_assign
@rewrite `self . add_assign_primitive ( rhs )` => `ibig_add_assign_primitive_u128(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & u128 > for IBig::add_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < u128 > for IBig::sub -> r
@rewrite `self . sub_primitive ( rhs )` => `ibig_sub_primitive_u128(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < u128 > for & IBig::sub -> r
@rewrite `self . sub_ref_primitive ( rhs )` => `ibig_sub_ref_primitive_u128(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < IBig > for u128::sub -> r
@rewrite `rhs . sub_from_primitive ( self )` => `ibig_sub_from_primitive_u128(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & IBig > for u128::sub -> r
@rewrite `rhs . sub_ref_from_primitive ( self )` => `ibig_sub_ref_from_primitive_u128(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & u128 > for IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & u128 > for & 'a IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < IBig > for & u128::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn Sub < & 'a IBig > for & u128::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn SubAssign < u128 > for IBig::sub_assign
@rewrite `self . sub_assign_primitive ( rhs )` => `ibig_sub_assign_primitive_u128(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & u128 > for IBig::sub_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < usize > for IBig::add -> r
@rewrite `self . add_primitive ( rhs )` => `ibig_add_primitive_usize(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < usize > for & IBig::add -> r
@rewrite `self . add_ref_primitive ( rhs )` => `ibig_add_ref_primitive_usize(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & usize > for IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & usize > for & 'a IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < IBig > for usize::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for usize::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < IBig > for & 'a usize::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for & 'b usize::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < usize > for IBig::add_assign
@rewrite `self . add_assign_primitive ( rhs )` => `ibig_add_assign_primitive_usize(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & usize > for IBig::add_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < usize > for IBig::sub -> r
@rewrite `self . sub_primitive ( rhs )` => `ibig_sub_primitive_usize(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < usize > for & IBig::sub -> r
@rewrite `self . sub_ref_primitive ( rhs )` => `ibig_sub_ref_primitive_usize(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < IBig > for usize::sub -> r
@rewrite `rhs . sub_from_primitive ( self )` => `ibig_sub_from_primitive_usize(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & IBig > for usize::sub -> r
@rewrite `rhs . sub_ref_from_primitive ( self )` => `ibig_sub_ref_from_primitive_usize(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & usize > for IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & usize > for & 'a IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < IBig > for & usize::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn Sub < & 'a IBig > for & usize::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn SubAssign < usize > for IBig::sub_assign
@rewrite `self . sub_assign_primitive ( rhs )` => `ibig_sub_assign_primitive_usize(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & usize > for IBig::sub_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < i8 > for IBig::add -> r
@rewrite `self . add_primitive ( rhs )` => `ibig_add_primitive_i8(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < i8 > for & IBig::add -> r
@rewrite `self . add_ref_primitive ( rhs )` => `ibig_add_ref_primitive_i8(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & i8 > for IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & i8 > for & 'a IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < IBig > for i8::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for i8::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < IBig > for & 'a i8::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for & 'b i8::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < i8 > for IBig::add_assign
@rewrite `self . add_assign_primitive ( rhs )` => `ibig_add_assign_primitive_i8(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & i8 > for IBig::add_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < i8 > for IBig::sub -> r
@rewrite `self . sub_primitive ( rhs )` => `ibig_sub_primitive_i8(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < i8 > for & IBig::sub -> r
@rewrite `self . sub_ref_primitive ( rhs )` => `ibig_sub_ref_primitive_i8(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < IBig > for i8::sub -> r
@rewrite `rhs . sub_from_primitive ( self )` => `ibig_sub_from_primitive_i8(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & IBig > for i8::sub -> r
@rewrite `rhs . sub_ref_from_primitive ( self )` => `ibig_sub_ref_from_primitive_i8(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & i8 > for IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & i8 > for & 'a IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < IBig > for & i8::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn Sub < & 'a IBig > for & i8::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn SubAssign < i8 > for IBig::sub_assign
@rewrite `self . sub_assign_primitive ( rhs )` => `ibig_sub_assign_primitive_i8(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & i8 > for IBig::sub_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < i16 > for IBig::add -> r
@rewrite `self . add_primitive ( rhs )` => `ibig_add_primitive_i16(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < i16 > for & IBig::add -> r
@rewrite `self . add_ref_primitive ( rhs )` => `ibig_add_ref_primitive_i16(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & i16 > for IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & i16 > for & 'a IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < IBig > for i16::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for i16::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < IBig > for & 'a i16::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for & 'b i16::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < i16 > for IBig::add_assign
@rewrite `self . add_assign_primitive ( rhs )` => `ibig_add_assign_primitive_i16(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & i16 > for IBig::add_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < i16 > for IBig::sub -> r
@rewrite `self . sub_primitive ( rhs )` => `ibig_sub_primitive_i16(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < i16 > for & IBig::sub -> r
@rewrite `self . sub_ref_primitive ( rhs )` => `ibig_sub_ref_primitive_i16(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < IBig > for i16::sub -> r
@rewrite `rhs . sub_from_primitive ( self )` => `ibig_sub_from_primitive_i16(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & IBig > for i16::sub -> r
@rewrite `rhs . sub_ref_from_primitive ( self )` => `ibig_sub_ref_from_primitive_i16(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & i16 > for IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & i16 > for & 'a IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < IBig > for & i16::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn Sub < & 'a IBig > for & i16::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn SubAssign < i16 > for IBig::sub_assign
@rewrite `self . sub_assign_primitive ( rhs )` => `ibig_sub_assign_primitive_i16(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & i16 > for IBig::sub_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < i32 > for IBig::add -> r
@rewrite `self . add_primitive ( rhs )` => `ibig_add_primitive_i32(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < i32 > for & IBig::add -> r
@rewrite `self . add_ref_primitive ( rhs )` => `ibig_add_ref_primitive_i32(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & i32 > for IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & i32 > for & 'a IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < IBig > for i32::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for i32::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < IBig > for & 'a i32::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for & 'b i32::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < i32 > for IBig::add_assign
@rewrite `self . add_assign_primitive ( rhs )` => `ibig_add_assign_primitive_i32(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & i32 > for IBig::add_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < i32 > for IBig::sub -> r
@rewrite `self . sub_primitive ( rhs )` => `ibig_sub_primitive_i32(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < i32 > for & IBig::sub -> r
@rewrite `self . sub_ref_primitive ( rhs )` => `ibig_sub_ref_primitive_i32(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < IBig > for i32::sub -> r
@rewrite `rhs . sub_from_primitive ( self )` => `ibig_sub_from_primitive_i32(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & IBig > for i32::sub -> r
@rewrite `rhs . sub_ref_from_primitive ( self )` => `ibig_sub_ref_from_primitive_i32(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & i32 > for IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & i32 > for & 'a IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < IBig > for & i32::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn Sub < & 'a IBig > for & i32::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn SubAssign < i32 > for IBig::sub_assign
@rewrite `self . sub_assign_primitive ( rhs )` => `ibig_sub_assign_primitive_i32(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & i32 > for IBig::sub_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < i64 > for IBig::add -> r
@rewrite `self . add_primitive ( rhs )` => `ibig_add_primitive_i64(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < i64 > for & IBig::add -> r
@rewrite `self . add_ref_primitive ( rhs )` => `ibig_add_ref_primitive_i64(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & i64 > for IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & i64 > for & 'a IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < IBig > for i64::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for i64::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < IBig > for & 'a i64::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for & 'b i64::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < i64 > for IBig::add_assign
@rewrite `self . add_assign_primitive ( rhs )` => `ibig_add_assign_primitive_i64(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & i64 > for IBig::add_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < i64 > for IBig::sub -> r
@rewrite `self . sub_primitive ( rhs )` => `ibig_sub_primitive_i64(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < i64 > for & IBig::sub -> r
@rewrite `self . sub_ref_primitive ( rhs )` => `ibig_sub_ref_primitive_i64(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < IBig > for i64::sub -> r
@rewrite `rhs . sub_from_primitive ( self )` => `ibig_sub_from_primitive_i64(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & IBig > for i64::sub -> r
@rewrite `rhs . sub_ref_from_primitive ( self )` => `ibig_sub_ref_from_primitive_i64(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & i64 > for IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & i64 > for & 'a IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < IBig > for & i64::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn Sub < & 'a IBig > for & i64::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn SubAssign < i64 > for IBig::sub_assign
@rewrite `self . sub_assign_primitive ( rhs )` => `ibig_sub_assign_primitive_i64(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & i64 > for IBig::sub_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < i128 > for IBig::add -> r
@rewrite `self . add_primitive ( rhs )` => `ibig_add_primitive_i128(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < i128 > for & IBig::add -> r
@rewrite `self . add_ref_primitive ( rhs )` => `ibig_add_ref_primitive_i128(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & i128 > for IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & i128 > for & 'a IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < IBig > for i128::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for i128::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < IBig > for & 'a i128::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for & 'b i128::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < i128 > for IBig::add_assign
@rewrite `self . add_assign_primitive ( rhs )` => `ibig_add_assign_primitive_i128(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & i128 > for IBig::add_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < i128 > for IBig::sub -> r
@rewrite `self . sub_primitive ( rhs )` => `ibig_sub_primitive_i128(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < i128 > for & IBig::sub -> r
@rewrite `self . sub_ref_primitive ( rhs )` => `ibig_sub_ref_primitive_i128(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < IBig > for i128::sub -> r
@rewrite `rhs . sub_from_primitive ( self )` => `ibig_sub_from_primitive_i128(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & IBig > for i128::sub -> r
@rewrite `rhs . sub_ref_from_primitive ( self )` => `ibig_sub_ref_from_primitive_i128(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & i128 > for IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & i128 > for & 'a IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < IBig > for & i128::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn Sub < & 'a IBig > for & i128::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn SubAssign < i128 > for IBig::sub_assign
@rewrite `self . sub_assign_primitive ( rhs )` => `ibig_sub_assign_primitive_i128(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & i128 > for IBig::sub_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@fn Add < isize > for IBig::add -> r
@rewrite `self . add_primitive ( rhs )` => `ibig_add_primitive_isize(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < isize > for & IBig::add -> r
@rewrite `self . add_ref_primitive ( rhs )` => `ibig_add_ref_primitive_isize(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (rhs as int)
@fn Add < & isize > for IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < & isize > for & 'a IBig::add -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) + (*rhs as int)
@fn Add < IBig > for isize::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for isize::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) + (rhs.v() as int)
@fn Add < IBig > for & 'a isize::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn Add < & 'a IBig > for & 'b isize::add -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) + (rhs.v() as int)
@fn AddAssign < isize > for IBig::add_assign
@rewrite `self . add_assign_primitive ( rhs )` => `ibig_add_assign_primitive_isize(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (rhs as int)
@fn AddAssign < & isize > for IBig::add_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) + (*rhs as int)
@fn Sub < isize > for IBig::sub -> r
@rewrite `self . sub_primitive ( rhs )` => `ibig_sub_primitive_isize(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < isize > for & IBig::sub -> r
@rewrite `self . sub_ref_primitive ( rhs )` => `ibig_sub_ref_primitive_isize(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (rhs as int)
@fn Sub < IBig > for isize::sub -> r
@rewrite `rhs . sub_from_primitive ( self )` => `ibig_sub_from_primitive_isize(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & IBig > for isize::sub -> r
@rewrite `rhs . sub_ref_from_primitive ( self )` => `ibig_sub_ref_from_primitive_isize(rhs, self)`
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) - (rhs.v() as int)
@fn Sub < & isize > for IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < & isize > for & 'a IBig::sub -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) - (*rhs as int)
@fn Sub < IBig > for & isize::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn Sub < & 'a IBig > for & isize::sub -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) - (rhs.v() as int)
@fn SubAssign < isize > for IBig::sub_assign
@rewrite `self . sub_assign_primitive ( rhs )` => `ibig_sub_assign_primitive_isize(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (rhs as int)
@fn SubAssign < & isize > for IBig::sub_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) - (*rhs as int)
@file mul_ops.rs
@expand impl_mul_ubig_unsigned
@expand impl_mul_ubig_signed
@expand impl_mul_ibig_primitive
@expand forward_binop_second_arg_by_value
@expand forward_binop_swap_args
@expand forward_binop_assign_arg_by_value
@fn Mul < u8 > for UBig::mul -> r
@rewrite `self . mul_unsigned ( rhs )` => `ubig_mul_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < u8 > for & UBig::mul -> r
@rewrite `self . mul_ref_unsigned ( rhs )` => `ubig_mul_ref_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & u8 > for UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & u8 > for & 'a UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < UBig > for u8::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for u8::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < UBig > for & 'a u8::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for & 'b u8::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < u8 > for UBig::mul_assign
@rewrite `self . mul_assign_unsigned ( rhs )` => `ubig_mul_assign_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & u8 > for UBig::mul_assign
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < u16 > for UBig::mul -> r
@rewrite `self . mul_unsigned ( rhs )` => `ubig_mul_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < u16 > for & UBig::mul -> r
@rewrite `self . mul_ref_unsigned ( rhs )` => `ubig_mul_ref_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & u16 > for UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & u16 > for & 'a UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < UBig > for u16::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for u16::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < UBig > for & 'a u16::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for & 'b u16::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < u16 > for UBig::mul_assign
@rewrite `self . mul_assign_unsigned ( rhs )` => `ubig_mul_assign_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & u16 > for UBig::mul_assign
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < u32 > for UBig::mul -> r
@rewrite `self . mul_unsigned ( rhs )` => `ubig_mul_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < u32 > for & UBig::mul -> r
@rewrite `self . mul_ref_unsigned ( rhs )` => `ubig_mul_ref_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & u32 > for UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & u32 > for & 'a UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < UBig > for u32::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for u32::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < UBig > for & 'a u32::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for & 'b u32::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < u32 > for UBig::mul_assign
@rewrite `self . mul_assign_unsigned ( rhs )` => `ubig_mul_assign_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & u32 > for UBig::mul_assign
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < u64 > for UBig::mul -> r
@rewrite `self . mul_unsigned ( rhs )` => `ubig_mul_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < u64 > for & UBig::mul -> r
@rewrite `self . mul_ref_unsigned ( rhs )` => `ubig_mul_ref_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & u64 > for UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & u64 > for & 'a UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < UBig > for u64::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for u64::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < UBig > for & 'a u64::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for & 'b u64::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < u64 > for UBig::mul_assign
@rewrite `self . mul_assign_unsigned ( rhs )` => `ubig_mul_assign_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & u64 > for UBig::mul_assign
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < u128 > for UBig::mul -> r
@rewrite `self . mul_unsigned ( rhs )` => `ubig_mul_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < u128 > for & UBig::mul -> r
@rewrite `self . mul_ref_unsigned ( rhs )` => `ubig_mul_ref_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & u128 > for UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & u128 > for & 'a UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < UBig > for u128::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for u128::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < UBig > for & 'a u128::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for & 'b u128::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < u128 > for UBig::mul_assign
@rewrite `self . mul_assign_unsigned ( rhs )` => `ubig_mul_assign_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & u128 > for UBig::mul_assign
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < usize > for UBig::mul -> r
@rewrite `self . mul_unsigned ( rhs )` => `ubig_mul_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < usize > for & UBig::mul -> r
@rewrite `self . mul_ref_unsigned ( rhs )` => `ubig_mul_ref_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & usize > for UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & usize > for & 'a UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < UBig > for usize::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for usize::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < UBig > for & 'a usize::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for & 'b usize::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < usize > for UBig::mul_assign
@rewrite `self . mul_assign_unsigned ( rhs )` => `ubig_mul_assign_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & usize > for UBig::mul_assign
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < i8 > for UBig::mul -> r
@rewrite `self . mul_signed ( rhs )` => `ubig_mul_signed_i8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < i8 > for & UBig::mul -> r
@rewrite `self . mul_ref_signed ( rhs )` => `ubig_mul_ref_signed_i8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & i8 > for UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & i8 > for & 'a UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < UBig > for i8::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for i8::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < UBig > for & 'a i8::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for & 'b i8::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < i8 > for UBig::mul_assign
@rewrite `self . mul_assign_signed ( rhs )` => `ubig_mul_assign_signed_i8(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & i8 > for UBig::mul_assign
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < i16 > for UBig::mul -> r
@rewrite `self . mul_signed ( rhs )` => `ubig_mul_signed_i16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < i16 > for & UBig::mul -> r
@rewrite `self . mul_ref_signed ( rhs )` => `ubig_mul_ref_signed_i16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & i16 > for UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & i16 > for & 'a UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < UBig > for i16::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for i16::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < UBig > for & 'a i16::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for & 'b i16::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < i16 > for UBig::mul_assign
@rewrite `self . mul_assign_signed ( rhs )` => `ubig_mul_assign_signed_i16(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & i16 > for UBig::mul_assign
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < i32 > for UBig::mul -> r
@rewrite `self . mul_signed ( rhs )` => `ubig_mul_signed_i32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < i32 > for & UBig::mul -> r
@rewrite `self . mul_ref_signed ( rhs )` => `ubig_mul_ref_signed_i32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & i32 > for UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & i32 > for & 'a UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < UBig > for i32::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for i32::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < UBig > for & 'a i32::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for & 'b i32::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < i32 > for UBig::mul_assign
@rewrite `self . mul_assign_signed ( rhs )` => `ubig_mul_assign_signed_i32(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & i32 > for UBig::mul_assign
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < i64 > for UBig::mul -> r
@rewrite `self . mul_signed ( rhs )` => `ubig_mul_signed_i64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < i64 > for & UBig::mul -> r
@rewrite `self . mul_ref_signed ( rhs )` => `ubig_mul_ref_signed_i64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & i64 > for UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & i64 > for & 'a UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < UBig > for i64::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for i64::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < UBig > for & 'a i64::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for & 'b i64::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < i64 > for UBig::mul_assign
@rewrite `self . mul_assign_signed ( rhs )` => `ubig_mul_assign_signed_i64(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & i64 > for UBig::mul_assign
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < i128 > for UBig::mul -> r
@rewrite `self . mul_signed ( rhs )` => `ubig_mul_signed_i128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < i128 > for & UBig::mul -> r
@rewrite `self . mul_ref_signed ( rhs )` => `ubig_mul_ref_signed_i128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & i128 > for UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & i128 > for & 'a UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < UBig > for i128::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for i128::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < UBig > for & 'a i128::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for & 'b i128::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < i128 > for UBig::mul_assign
@rewrite `self . mul_assign_signed ( rhs )` => `ubig_mul_assign_signed_i128(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & i128 > for UBig::mul_assign
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < isize > for UBig::mul -> r
@rewrite `self . mul_signed ( rhs )` => `ubig_mul_signed_isize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < isize > for & UBig::mul -> r
@rewrite `self . mul_ref_signed ( rhs )` => `ubig_mul_ref_signed_isize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & isize > for UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & isize > for & 'a UBig::mul -> r
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < UBig > for isize::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for isize::mul -> r
@pre rhs.wf()
@panics (self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < UBig > for & 'a isize::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a UBig > for & 'b isize::mul -> r
@pre rhs.wf()
@panics (*self as int) * (rhs.v() as int) < 0
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < isize > for UBig::mul_assign
@rewrite `self . mul_assign_signed ( rhs )` => `ubig_mul_assign_signed_isize(self, rhs)`
@pre self.wf()
@panics (self.v() as int) * (rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & isize > for UBig::mul_assign
@pre self.wf()
@panics (self.v() as int) * (*rhs as int) < 0
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < u8 > for IBig::mul -> r
@rewrite `self . mul_primitive ( rhs )` => `ibig_mul_primitive_u8(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < u8 > for & IBig::mul -> r
@rewrite `self . mul_ref_primitive ( rhs )` => `ibig_mul_ref_primitive_u8(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & u8 > for IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & u8 > for & 'a IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < IBig > for u8::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for u8::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < IBig > for & 'a u8::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for & 'b u8::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < u8 > for IBig::mul_assign
@rewrite `self . mul_assign_primitive ( rhs )` => `ibig_mul_assign_primitive_u8(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & u8 > for IBig::mul_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < u16 > for IBig::mul -> r
@rewrite `self . mul_primitive ( rhs )` => `ibig_mul_primitive_u16(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < u16 > for & IBig::mul -> r
@rewrite `self . mul_ref_primitive ( rhs )` => `ibig_mul_ref_primitive_u16(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & u16 > for IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & u16 > for & 'a IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < IBig > for u16::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for u16::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < IBig > for & 'a u16::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for & 'b u16::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < u16 > for IBig::mul_assign
@rewrite `self . mul_assign_primitive ( rhs )` => `ibig_mul_assign_primitive_u16(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & u16 > for IBig::mul_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < u32 > for IBig::mul -> r
@rewrite `self . mul_primitive ( rhs )` => `ibig_mul_primitive_u32(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < u32 > for & IBig::mul -> r
@rewrite `self . mul_ref_primitive ( rhs )` => `ibig_mul_ref_primitive_u32(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & u32 > for IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & u32 > for & 'a IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < IBig > for u32::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for u32::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < IBig > for & 'a u32::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for & 'b u32::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < u32 > for IBig::mul_assign
@rewrite `self . mul_assign_primitive ( rhs )` => `ibig_mul_assign_primitive_u32(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & u32 > for IBig::mul_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < u64 > for IBig::mul -> r
@rewrite `self . mul_primitive ( rhs )` => `ibig_mul_primitive_u64(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < u64 > for & IBig::mul -> r
@rewrite `self . mul_ref_primitive ( rhs )` => `ibig_mul_ref_primitive_u64(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & u64 > for IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & u64 > for & 'a IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < IBig > for u64::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for u64::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < IBig > for & 'a u64::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for & 'b u64::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < u64 > for IBig::mul_assign
@rewrite `self . mul_assign_primitive ( rhs )` => `ibig_mul_assign_primitive_u64(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & u64 > for IBig::mul_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < u128 > for IBig::mul -> r
@rewrite `self . mul_primitive ( rhs )` => `ibig_mul_primitive_u128(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < u128 > for & IBig::mul -> r
@rewrite `self . mul_ref_primitive ( rhs )` => `ibig_mul_ref_primitive_u128(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & u128 > for IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & u128 > for & 'a IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < IBig > for u128::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for u128::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < IBig > for & 'a u128::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for & 'b u128::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < u128 > for IBig::mul_assign
@rewrite `self . mul_assign_primitive ( rhs )` => `ibig_mul_assign_primitive_u128(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & u128 > for IBig::mul_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < usize > for IBig::mul -> r
@rewrite `self . mul_primitive ( rhs )` => `ibig_mul_primitive_usize(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < usize > for & IBig::mul -> r
@rewrite `self . mul_ref_primitive ( rhs )` => `ibig_mul_ref_primitive_usize(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & usize > for IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & usize > for & 'a IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < IBig > for usize::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for usize::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < IBig > for & 'a usize::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for & 'b usize::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < usize > for IBig::mul_assign
@rewrite `self . mul_assign_primitive ( rhs )` => `ibig_mul_assign_primitive_usize(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & usize > for IBig::mul_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < i8 > for IBig::mul -> r
@rewrite `self . mul_primitive ( rhs )` => `ibig_mul_primitive_i8(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < i8 > for & IBig::mul -> r
@rewrite `self . mul_ref_primitive ( rhs )` => `ibig_mul_ref_primitive_i8(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & i8 > for IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & i8 > for & 'a IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < IBig > for i8::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for i8::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < IBig > for & 'a i8::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for & 'b i8::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < i8 > for IBig::mul_assign
@rewrite `self . mul_assign_primitive ( rhs )` => `ibig_mul_assign_primitive_i8(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & i8 > for IBig::mul_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < i16 > for IBig::mul -> r
@rewrite `self . mul_primitive ( rhs )` => `ibig_mul_primitive_i16(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < i16 > for & IBig::mul -> r
@rewrite `self . mul_ref_primitive ( rhs )` => `ibig_mul_ref_primitive_i16(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & i16 > for IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & i16 > for & 'a IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < IBig > for i16::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for i16::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < IBig > for & 'a i16::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for & 'b i16::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < i16 > for IBig::mul_assign
@rewrite `self . mul_assign_primitive ( rhs )` => `ibig_mul_assign_primitive_i16(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & i16 > for IBig::mul_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < i32 > for IBig::mul -> r
@rewrite `self . mul_primitive ( rhs )` => `ibig_mul_primitive_i32(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < i32 > for & IBig::mul -> r
@rewrite `self . mul_ref_primitive ( rhs )` => `ibig_mul_ref_primitive_i32(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & i32 > for IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & i32 > for & 'a IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < IBig > for i32::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for i32::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < IBig > for & 'a i32::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for & 'b i32::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < i32 > for IBig::mul_assign
@rewrite `self . mul_assign_primitive ( rhs )` => `ibig_mul_assign_primitive_i32(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & i32 > for IBig::mul_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < i64 > for IBig::mul -> r
@rewrite `self . mul_primitive ( rhs )` => `ibig_mul_primitive_i64(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < i64 > for & IBig::mul -> r
@rewrite `self . mul_ref_primitive ( rhs )` => `ibig_mul_ref_primitive_i64(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & i64 > for IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & i64 > for & 'a IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < IBig > for i64::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for i64::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < IBig > for & 'a i64::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for & 'b i64::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < i64 > for IBig::mul_assign
@rewrite `self . mul_assign_primitive ( rhs )` => `ibig_mul_assign_primitive_i64(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & i64 > for IBig::mul_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < i128 > for IBig::mul -> r
@rewrite `self . mul_primitive ( rhs )` => `ibig_mul_primitive_i128(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < i128 > for & IBig::mul -> r
@rewrite `self . mul_ref_primitive ( rhs )` => `ibig_mul_ref_primitive_i128(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & i128 > for IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & i128 > for & 'a IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < IBig > for i128::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for i128::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < IBig > for & 'a i128::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for & 'b i128::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < i128 > for IBig::mul_assign
@rewrite `self . mul_assign_primitive ( rhs )` => `ibig_mul_assign_primitive_i128(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & i128 > for IBig::mul_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@fn Mul < isize > for IBig::mul -> r
@rewrite `self . mul_primitive ( rhs )` => `ibig_mul_primitive_isize(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < isize > for & IBig::mul -> r
@rewrite `self . mul_ref_primitive ( rhs )` => `ibig_mul_ref_primitive_isize(self, rhs)`
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (rhs as int)
@fn Mul < & isize > for IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < & isize > for & 'a IBig::mul -> r
@pre self.wf()
    ensures r.wf(), (r.v() as int) == (self.v() as int) * (*rhs as int)
@fn Mul < IBig > for isize::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for isize::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (self as int) * (rhs.v() as int)
@fn Mul < IBig > for & 'a isize::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn Mul < & 'a IBig > for & 'b isize::mul -> r
@pre rhs.wf()
    ensures r.wf(), (r.v() as int) == (*self as int) * (rhs.v() as int)
@fn MulAssign < isize > for IBig::mul_assign
@rewrite `self . mul_assign_primitive ( rhs )` => `ibig_mul_assign_primitive_isize(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (rhs as int)
@fn MulAssign < & isize > for IBig::mul_assign
@pre self.wf()
    ensures final(self).wf(), (final(self).v() as int) == (old(self).v() as int) * (*rhs as int)
@file div_ops.rs
@expand impl_div_ubig_unsigned
@expand impl_div_ubig_signed
@expand impl_div_ibig_unsigned
@expand impl_div_ibig_signed
@expand impl_div_ibig_primitive
@expand forward_binop_second_arg_by_value
@expand forward_div_rem_second_arg_by_value
@expand forward_binop_assign_arg_by_value
@fn Div < u8 > for UBig::div -> r
@rewrite `self . div_unsigned ( rhs )` => `ubig_div_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < u8 > for & UBig::div -> r
@rewrite `self . div_ref_unsigned ( rhs )` => `ubig_div_ref_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & u8 > for UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & u8 > for & 'a UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < u8 > for UBig::div_assign
@rewrite `self . div_assign_unsigned ( rhs )` => `ubig_div_assign_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & u8 > for UBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < u8 > for UBig::rem -> r
@rewrite `self . rem_unsigned ( rhs )` => `ubig_rem_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < u8 > for & UBig::rem -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ubig_rem_ref_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < & u8 > for UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & u8 > for & 'a UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < u8 > for UBig::rem_assign
@rewrite `self . rem_assign_unsigned ( rhs )` => `ubig_rem_assign_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tr((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & u8 > for UBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tr((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < u8 > for UBig::div_rem -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ubig_div_rem_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < u8 > for & UBig::div_rem -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ubig_div_rem_ref_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < & u8 > for UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & u8 > for & 'a UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < u8 > for UBig::div_euclid -> r
@rewrite `self . div_unsigned ( rhs )` => `ubig_div_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivEuclid < u8 > for & UBig::div_euclid -> r
@rewrite `self . div_ref_unsigned ( rhs )` => `ubig_div_ref_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivEuclid < & u8 > for UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivEuclid < & u8 > for & 'a UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn RemEuclid < u8 > for UBig::rem_euclid -> r
@rewrite `self . rem_unsigned ( rhs )` => `ubig_rem_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn RemEuclid < u8 > for & UBig::rem_euclid -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ubig_rem_ref_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn RemEuclid < & u8 > for UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn RemEuclid < & u8 > for & 'a UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivRemEuclid < u8 > for UBig::div_rem_euclid -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ubig_div_rem_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivRemEuclid < u8 > for & UBig::div_rem_euclid -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ubig_div_rem_ref_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivRemEuclid < & u8 > for UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivRemEuclid < & u8 > for & 'a UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn Div < u16 > for UBig::div -> r
@rewrite `self . div_unsigned ( rhs )` => `ubig_div_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < u16 > for & UBig::div -> r
@rewrite `self . div_ref_unsigned ( rhs )` => `ubig_div_ref_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & u16 > for UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & u16 > for & 'a UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < u16 > for UBig::div_assign
@rewrite `self . div_assign_unsigned ( rhs )` => `ubig_div_assign_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & u16 > for UBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < u16 > for UBig::rem -> r
@rewrite `self . rem_unsigned ( rhs )` => `ubig_rem_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < u16 > for & UBig::rem -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ubig_rem_ref_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < & u16 > for UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & u16 > for & 'a UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < u16 > for UBig::rem_assign
@rewrite `self . rem_assign_unsigned ( rhs )` => `ubig_rem_assign_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tr((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & u16 > for UBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tr((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < u16 > for UBig::div_rem -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ubig_div_rem_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < u16 > for & UBig::div_rem -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ubig_div_rem_ref_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < & u16 > for UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & u16 > for & 'a UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < u16 > for UBig::div_euclid -> r
@rewrite `self . div_unsigned ( rhs )` => `ubig_div_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivEuclid < u16 > for & UBig::div_euclid -> r
@rewrite `self . div_ref_unsigned ( rhs )` => `ubig_div_ref_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivEuclid < & u16 > for UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivEuclid < & u16 > for & 'a UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn RemEuclid < u16 > for UBig::rem_euclid -> r
@rewrite `self . rem_unsigned ( rhs )` => `ubig_rem_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn RemEuclid < u16 > for & UBig::rem_euclid -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ubig_rem_ref_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn RemEuclid < & u16 > for UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn RemEuclid < & u16 > for & 'a UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivRemEuclid < u16 > for UBig::div_rem_euclid -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ubig_div_rem_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivRemEuclid < u16 > for & UBig::div_rem_euclid -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ubig_div_rem_ref_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivRemEuclid < & u16 > for UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivRemEuclid < & u16 > for & 'a UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn Div < u32 > for UBig::div -> r
@rewrite `self . div_unsigned ( rhs )` => `ubig_div_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < u32 > for & UBig::div -> r
@rewrite `self . div_ref_unsigned ( rhs )` => `ubig_div_ref_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & u32 > for UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & u32 > for & 'a UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < u32 > for UBig::div_assign
@rewrite `self . div_assign_unsigned ( rhs )` => `ubig_div_assign_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & u32 > for UBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < u32 > for UBig::rem -> r
@rewrite `self . rem_unsigned ( rhs )` => `ubig_rem_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < u32 > for & UBig::rem -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ubig_rem_ref_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < & u32 > for UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & u32 > for & 'a UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < u32 > for UBig::rem_assign
@rewrite `self . rem_assign_unsigned ( rhs )` => `ubig_rem_assign_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tr((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & u32 > for UBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tr((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < u32 > for UBig::div_rem -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ubig_div_rem_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < u32 > for & UBig::div_rem -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ubig_div_rem_ref_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < & u32 > for UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & u32 > for & 'a UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < u32 > for UBig::div_euclid -> r
@rewrite `self . div_unsigned ( rhs )` => `ubig_div_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivEuclid < u32 > for & UBig::div_euclid -> r
@rewrite `self . div_ref_unsigned ( rhs )` => `ubig_div_ref_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivEuclid < & u32 > for UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivEuclid < & u32 > for & 'a UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn RemEuclid < u32 > for UBig::rem_euclid -> r
@rewrite `self . rem_unsigned ( rhs )` => `ubig_rem_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn RemEuclid < u32 > for & UBig::rem_euclid -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ubig_rem_ref_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn RemEuclid < & u32 > for UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn RemEuclid < & u32 > for & 'a UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivRemEuclid < u32 > for UBig::div_rem_euclid -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ubig_div_rem_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivRemEuclid < u32 > for & UBig::div_rem_euclid -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ubig_div_rem_ref_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivRemEuclid < & u32 > for UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivRemEuclid < & u32 > for & 'a UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn Div < u64 > for UBig::div -> r
@rewrite `self . div_unsigned ( rhs )` => `ubig_div_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < u64 > for & UBig::div -> r
@rewrite `self . div_ref_unsigned ( rhs )` => `ubig_div_ref_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & u64 > for UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & u64 > for & 'a UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < u64 > for UBig::div_assign
@rewrite `self . div_assign_unsigned ( rhs )` => `ubig_div_assign_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & u64 > for UBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < u64 > for UBig::rem -> r
@rewrite `self . rem_unsigned ( rhs )` => `ubig_rem_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < u64 > for & UBig::rem -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ubig_rem_ref_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < & u64 > for UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & u64 > for & 'a UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < u64 > for UBig::rem_assign
@rewrite `self . rem_assign_unsigned ( rhs )` => `ubig_rem_assign_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tr((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & u64 > for UBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tr((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < u64 > for UBig::div_rem -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ubig_div_rem_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < u64 > for & UBig::div_rem -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ubig_div_rem_ref_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < & u64 > for UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & u64 > for & 'a UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < u64 > for UBig::div_euclid -> r
@rewrite `self . div_unsigned ( rhs )` => `ubig_div_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivEuclid < u64 > for & UBig::div_euclid -> r
@rewrite `self . div_ref_unsigned ( rhs )` => `ubig_div_ref_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivEuclid < & u64 > for UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivEuclid < & u64 > for & 'a UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn RemEuclid < u64 > for UBig::rem_euclid -> r
@rewrite `self . rem_unsigned ( rhs )` => `ubig_rem_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn RemEuclid < u64 > for & UBig::rem_euclid -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ubig_rem_ref_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn RemEuclid < & u64 > for UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn RemEuclid < & u64 > for & 'a UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivRemEuclid < u64 > for UBig::div_rem_euclid -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ubig_div_rem_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivRemEuclid < u64 > for & UBig::div_rem_euclid -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ubig_div_rem_ref_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivRemEuclid < & u64 > for UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivRemEuclid < & u64 > for & 'a UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn Div < u128 > for UBig::div -> r
@rewrite `self . div_unsigned ( rhs )` => `ubig_div_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < u128 > for & UBig::div -> r
@rewrite `self . div_ref_unsigned ( rhs )` => `ubig_div_ref_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & u128 > for UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & u128 > for & 'a UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < u128 > for UBig::div_assign
@rewrite `self . div_assign_unsigned ( rhs )` => `ubig_div_assign_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & u128 > for UBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < u128 > for UBig::rem -> r
@rewrite `self . rem_unsigned ( rhs )` => `ubig_rem_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < u128 > for & UBig::rem -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ubig_rem_ref_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < & u128 > for UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & u128 > for & 'a UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < u128 > for UBig::rem_assign
@rewrite `self . rem_assign_unsigned ( rhs )` => `ubig_rem_assign_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tr((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & u128 > for UBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tr((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < u128 > for UBig::div_rem -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ubig_div_rem_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < u128 > for & UBig::div_rem -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ubig_div_rem_ref_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < & u128 > for UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & u128 > for & 'a UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < u128 > for UBig::div_euclid -> r
@rewrite `self . div_unsigned ( rhs )` => `ubig_div_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivEuclid < u128 > for & UBig::div_euclid -> r
@rewrite `self . div_ref_unsigned ( rhs )` => `ubig_div_ref_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivEuclid < & u128 > for UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivEuclid < & u128 > for & 'a UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn RemEuclid < u128 > for UBig::rem_euclid -> r
@rewrite `self . rem_unsigned ( rhs )` => `ubig_rem_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn RemEuclid < u128 > for & UBig::rem_euclid -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ubig_rem_ref_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn RemEuclid < & u128 > for UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn RemEuclid < & u128 > for & 'a UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivRemEuclid < u128 > for UBig::div_rem_euclid -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ubig_div_rem_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivRemEuclid < u128 > for & UBig::div_rem_euclid -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ubig_div_rem_ref_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivRemEuclid < & u128 > for UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivRemEuclid < & u128 > for & 'a UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn Div < usize > for UBig::div -> r
@rewrite `self . div_unsigned ( rhs )` => `ubig_div_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < usize > for & UBig::div -> r
@rewrite `self . div_ref_unsigned ( rhs )` => `ubig_div_ref_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & usize > for UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & usize > for & 'a UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < usize > for UBig::div_assign
@rewrite `self . div_assign_unsigned ( rhs )` => `ubig_div_assign_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & usize > for UBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < usize > for UBig::rem -> r
@rewrite `self . rem_unsigned ( rhs )` => `ubig_rem_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < usize > for & UBig::rem -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ubig_rem_ref_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < & usize > for UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & usize > for & 'a UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < usize > for UBig::rem_assign
@rewrite `self . rem_assign_unsigned ( rhs )` => `ubig_rem_assign_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tr((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & usize > for UBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tr((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < usize > for UBig::div_rem -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ubig_div_rem_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < usize > for & UBig::div_rem -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ubig_div_rem_ref_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < & usize > for UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & usize > for & 'a UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < usize > for UBig::div_euclid -> r
@rewrite `self . div_unsigned ( rhs )` => `ubig_div_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivEuclid < usize > for & UBig::div_euclid -> r
@rewrite `self . div_ref_unsigned ( rhs )` => `ubig_div_ref_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivEuclid < & usize > for UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivEuclid < & usize > for & 'a UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn RemEuclid < usize > for UBig::rem_euclid -> r
@rewrite `self . rem_unsigned ( rhs )` => `ubig_rem_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn RemEuclid < usize > for & UBig::rem_euclid -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ubig_rem_ref_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn RemEuclid < & usize > for UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn RemEuclid < & usize > for & 'a UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivRemEuclid < usize > for UBig::div_rem_euclid -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ubig_div_rem_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivRemEuclid < usize > for & UBig::div_rem_euclid -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ubig_div_rem_ref_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (rhs as int)); }
@fn DivRemEuclid < & usize > for UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn DivRemEuclid < & usize > for & 'a UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@start
proof { lemma_trunc_nn((self.v() as int), (*rhs as int)); }
@fn Div < i8 > for UBig::div -> r
@rewrite `self . div_signed ( rhs )` => `ubig_div_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < i8 > for & UBig::div -> r
@rewrite `self . div_ref_signed ( rhs )` => `ubig_div_ref_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & i8 > for UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & i8 > for & 'a UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < i8 > for UBig::div_assign
@rewrite `self . div_assign_signed ( rhs )` => `ubig_div_assign_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & i8 > for UBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < i8 > for UBig::rem -> r
@rewrite `self . rem_signed ( rhs )` => `ubig_rem_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < i8 > for & UBig::rem -> r
@rewrite `self . rem_ref_signed ( rhs )` => `ubig_rem_ref_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < & i8 > for UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & i8 > for & 'a UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < i8 > for UBig::rem_assign
@rewrite `self . rem_assign_signed ( rhs )` => `ubig_rem_assign_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tr((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & i8 > for UBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tr((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < i8 > for UBig::div_rem -> r
@rewrite `self . div_rem_signed ( rhs )` => `ubig_div_rem_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < i8 > for & UBig::div_rem -> r
@rewrite `self . div_rem_ref_signed ( rhs )` => `ubig_div_rem_ref_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < & i8 > for UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & i8 > for & 'a UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < i8 > for UBig::div_euclid -> r
@rewrite `self . div_euclid_signed ( rhs )` => `ubig_div_euclid_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < i8 > for & UBig::div_euclid -> r
@rewrite `self . div_euclid_ref_signed ( rhs )` => `ubig_div_euclid_ref_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & i8 > for UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & i8 > for & 'a UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < i8 > for UBig::rem_euclid -> r
@rewrite `self . rem_euclid_signed ( rhs )` => `ubig_rem_euclid_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < i8 > for & UBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_signed ( rhs )` => `ubig_rem_euclid_ref_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & i8 > for UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & i8 > for & 'a UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < i8 > for UBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_signed ( rhs )` => `ubig_div_rem_euclid_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < i8 > for & UBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_signed ( rhs )` => `ubig_div_rem_euclid_ref_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & i8 > for UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & i8 > for & 'a UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Div < i16 > for UBig::div -> r
@rewrite `self . div_signed ( rhs )` => `ubig_div_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < i16 > for & UBig::div -> r
@rewrite `self . div_ref_signed ( rhs )` => `ubig_div_ref_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & i16 > for UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & i16 > for & 'a UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < i16 > for UBig::div_assign
@rewrite `self . div_assign_signed ( rhs )` => `ubig_div_assign_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & i16 > for UBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < i16 > for UBig::rem -> r
@rewrite `self . rem_signed ( rhs )` => `ubig_rem_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < i16 > for & UBig::rem -> r
@rewrite `self . rem_ref_signed ( rhs )` => `ubig_rem_ref_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < & i16 > for UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & i16 > for & 'a UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < i16 > for UBig::rem_assign
@rewrite `self . rem_assign_signed ( rhs )` => `ubig_rem_assign_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tr((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & i16 > for UBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tr((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < i16 > for UBig::div_rem -> r
@rewrite `self . div_rem_signed ( rhs )` => `ubig_div_rem_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < i16 > for & UBig::div_rem -> r
@rewrite `self . div_rem_ref_signed ( rhs )` => `ubig_div_rem_ref_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < & i16 > for UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & i16 > for & 'a UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < i16 > for UBig::div_euclid -> r
@rewrite `self . div_euclid_signed ( rhs )` => `ubig_div_euclid_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < i16 > for & UBig::div_euclid -> r
@rewrite `self . div_euclid_ref_signed ( rhs )` => `ubig_div_euclid_ref_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & i16 > for UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & i16 > for & 'a UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < i16 > for UBig::rem_euclid -> r
@rewrite `self . rem_euclid_signed ( rhs )` => `ubig_rem_euclid_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < i16 > for & UBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_signed ( rhs )` => `ubig_rem_euclid_ref_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & i16 > for UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & i16 > for & 'a UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < i16 > for UBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_signed ( rhs )` => `ubig_div_rem_euclid_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < i16 > for & UBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_signed ( rhs )` => `ubig_div_rem_euclid_ref_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & i16 > for UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & i16 > for & 'a UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Div < i32 > for UBig::div -> r
@rewrite `self . div_signed ( rhs )` => `ubig_div_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < i32 > for & UBig::div -> r
@rewrite `self . div_ref_signed ( rhs )` => `ubig_div_ref_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & i32 > for UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & i32 > for & 'a UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < i32 > for UBig::div_assign
@rewrite `self . div_assign_signed ( rhs )` => `ubig_div_assign_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & i32 > for UBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < i32 > for UBig::rem -> r
@rewrite `self . rem_signed ( rhs )` => `ubig_rem_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < i32 > for & UBig::rem -> r
@rewrite `self . rem_ref_signed ( rhs )` => `ubig_rem_ref_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < & i32 > for UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & i32 > for & 'a UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < i32 > for UBig::rem_assign
@rewrite `self . rem_assign_signed ( rhs )` => `ubig_rem_assign_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tr((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & i32 > for UBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tr((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < i32 > for UBig::div_rem -> r
@rewrite `self . div_rem_signed ( rhs )` => `ubig_div_rem_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < i32 > for & UBig::div_rem -> r
@rewrite `self . div_rem_ref_signed ( rhs )` => `ubig_div_rem_ref_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < & i32 > for UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & i32 > for & 'a UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < i32 > for UBig::div_euclid -> r
@rewrite `self . div_euclid_signed ( rhs )` => `ubig_div_euclid_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < i32 > for & UBig::div_euclid -> r
@rewrite `self . div_euclid_ref_signed ( rhs )` => `ubig_div_euclid_ref_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & i32 > for UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & i32 > for & 'a UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < i32 > for UBig::rem_euclid -> r
@rewrite `self . rem_euclid_signed ( rhs )` => `ubig_rem_euclid_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < i32 > for & UBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_signed ( rhs )` => `ubig_rem_euclid_ref_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & i32 > for UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & i32 > for & 'a UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < i32 > for UBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_signed ( rhs )` => `ubig_div_rem_euclid_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < i32 > for & UBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_signed ( rhs )` => `ubig_div_rem_euclid_ref_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & i32 > for UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & i32 > for & 'a UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Div < i64 > for UBig::div -> r
@rewrite `self . div_signed ( rhs )` => `ubig_div_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < i64 > for & UBig::div -> r
@rewrite `self . div_ref_signed ( rhs )` => `ubig_div_ref_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & i64 > for UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & i64 > for & 'a UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < i64 > for UBig::div_assign
@rewrite `self . div_assign_signed ( rhs )` => `ubig_div_assign_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & i64 > for UBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < i64 > for UBig::rem -> r
@rewrite `self . rem_signed ( rhs )` => `ubig_rem_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < i64 > for & UBig::rem -> r
@rewrite `self . rem_ref_signed ( rhs )` => `ubig_rem_ref_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < & i64 > for UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & i64 > for & 'a UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < i64 > for UBig::rem_assign
@rewrite `self . rem_assign_signed ( rhs )` => `ubig_rem_assign_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tr((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & i64 > for UBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tr((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < i64 > for UBig::div_rem -> r
@rewrite `self . div_rem_signed ( rhs )` => `ubig_div_rem_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < i64 > for & UBig::div_rem -> r
@rewrite `self . div_rem_ref_signed ( rhs )` => `ubig_div_rem_ref_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < & i64 > for UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & i64 > for & 'a UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < i64 > for UBig::div_euclid -> r
@rewrite `self . div_euclid_signed ( rhs )` => `ubig_div_euclid_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < i64 > for & UBig::div_euclid -> r
@rewrite `self . div_euclid_ref_signed ( rhs )` => `ubig_div_euclid_ref_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & i64 > for UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & i64 > for & 'a UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < i64 > for UBig::rem_euclid -> r
@rewrite `self . rem_euclid_signed ( rhs )` => `ubig_rem_euclid_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < i64 > for & UBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_signed ( rhs )` => `ubig_rem_euclid_ref_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & i64 > for UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & i64 > for & 'a UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < i64 > for UBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_signed ( rhs )` => `ubig_div_rem_euclid_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < i64 > for & UBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_signed ( rhs )` => `ubig_div_rem_euclid_ref_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & i64 > for UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & i64 > for & 'a UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Div < i128 > for UBig::div -> r
@rewrite `self . div_signed ( rhs )` => `ubig_div_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < i128 > for & UBig::div -> r
@rewrite `self . div_ref_signed ( rhs )` => `ubig_div_ref_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & i128 > for UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & i128 > for & 'a UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < i128 > for UBig::div_assign
@rewrite `self . div_assign_signed ( rhs )` => `ubig_div_assign_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & i128 > for UBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < i128 > for UBig::rem -> r
@rewrite `self . rem_signed ( rhs )` => `ubig_rem_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < i128 > for & UBig::rem -> r
@rewrite `self . rem_ref_signed ( rhs )` => `ubig_rem_ref_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < & i128 > for UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & i128 > for & 'a UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < i128 > for UBig::rem_assign
@rewrite `self . rem_assign_signed ( rhs )` => `ubig_rem_assign_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tr((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & i128 > for UBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tr((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < i128 > for UBig::div_rem -> r
@rewrite `self . div_rem_signed ( rhs )` => `ubig_div_rem_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < i128 > for & UBig::div_rem -> r
@rewrite `self . div_rem_ref_signed ( rhs )` => `ubig_div_rem_ref_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < & i128 > for UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & i128 > for & 'a UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < i128 > for UBig::div_euclid -> r
@rewrite `self . div_euclid_signed ( rhs )` => `ubig_div_euclid_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < i128 > for & UBig::div_euclid -> r
@rewrite `self . div_euclid_ref_signed ( rhs )` => `ubig_div_euclid_ref_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & i128 > for UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & i128 > for & 'a UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < i128 > for UBig::rem_euclid -> r
@rewrite `self . rem_euclid_signed ( rhs )` => `ubig_rem_euclid_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < i128 > for & UBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_signed ( rhs )` => `ubig_rem_euclid_ref_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & i128 > for UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & i128 > for & 'a UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < i128 > for UBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_signed ( rhs )` => `ubig_div_rem_euclid_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < i128 > for & UBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_signed ( rhs )` => `ubig_div_rem_euclid_ref_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & i128 > for UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & i128 > for & 'a UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Div < isize > for UBig::div -> r
@rewrite `self . div_signed ( rhs )` => `ubig_div_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < isize > for & UBig::div -> r
@rewrite `self . div_ref_signed ( rhs )` => `ubig_div_ref_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & isize > for UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & isize > for & 'a UBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < isize > for UBig::div_assign
@rewrite `self . div_assign_signed ( rhs )` => `ubig_div_assign_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & isize > for UBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < isize > for UBig::rem -> r
@rewrite `self . rem_signed ( rhs )` => `ubig_rem_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < isize > for & UBig::rem -> r
@rewrite `self . rem_ref_signed ( rhs )` => `ubig_rem_ref_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < & isize > for UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & isize > for & 'a UBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < isize > for UBig::rem_assign
@rewrite `self . rem_assign_signed ( rhs )` => `ubig_rem_assign_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tr((self.v() as int), (rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & isize > for UBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0 || tr((self.v() as int), (*rhs as int)) < 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < isize > for UBig::div_rem -> r
@rewrite `self . div_rem_signed ( rhs )` => `ubig_div_rem_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < isize > for & UBig::div_rem -> r
@rewrite `self . div_rem_ref_signed ( rhs )` => `ubig_div_rem_ref_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || tq((self.v() as int), (rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < & isize > for UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & isize > for & 'a UBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0 || tq((self.v() as int), (*rhs as int)) < 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < isize > for UBig::div_euclid -> r
@rewrite `self . div_euclid_signed ( rhs )` => `ubig_div_euclid_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < isize > for & UBig::div_euclid -> r
@rewrite `self . div_euclid_ref_signed ( rhs )` => `ubig_div_euclid_ref_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & isize > for UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & isize > for & 'a UBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < isize > for UBig::rem_euclid -> r
@rewrite `self . rem_euclid_signed ( rhs )` => `ubig_rem_euclid_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < isize > for & UBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_signed ( rhs )` => `ubig_rem_euclid_ref_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & isize > for UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & isize > for & 'a UBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < isize > for UBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_signed ( rhs )` => `ubig_div_rem_euclid_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < isize > for & UBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_signed ( rhs )` => `ubig_div_rem_euclid_ref_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0 || (self.v() as int) / (rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & isize > for UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & isize > for & 'a UBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0 || (self.v() as int) / (*rhs as int) < 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Rem < u8 > for IBig::rem -> r
@rewrite `self . rem_unsigned ( rhs )` => `ibig_rem_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (rhs as int))
@fn Rem < u8 > for & IBig::rem -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ibig_rem_ref_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < u8 > for IBig::div_rem -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ibig_div_rem_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < u8 > for & IBig::div_rem -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ibig_div_rem_ref_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (rhs as int))
@fn Div < u8 > for IBig::div -> r
@rewrite `self . div_primitive ( rhs )` => `ibig_div_primitive_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < u8 > for & IBig::div -> r
@rewrite `self . div_ref_primitive ( rhs )` => `ibig_div_ref_primitive_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & u8 > for IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & u8 > for & 'a IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < u8 > for IBig::div_assign
@rewrite `self . div_assign_primitive ( rhs )` => `ibig_div_assign_primitive_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & u8 > for IBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < & u8 > for IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & u8 > for & 'a IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < u8 > for IBig::rem_assign
@rewrite `self . rem_assign_primitive ( rhs )` => `ibig_rem_assign_primitive_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & u8 > for IBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < & u8 > for IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & u8 > for & 'a IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < u8 > for IBig::div_euclid -> r
@rewrite `self . div_euclid_primitive ( rhs )` => `ibig_div_euclid_primitive_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < u8 > for & IBig::div_euclid -> r
@rewrite `self . div_euclid_ref_primitive ( rhs )` => `ibig_div_euclid_ref_primitive_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & u8 > for IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & u8 > for & 'a IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < u8 > for IBig::rem_euclid -> r
@rewrite `self . rem_euclid_primitive ( rhs )` => `ibig_rem_euclid_primitive_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < u8 > for & IBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_primitive ( rhs )` => `ibig_rem_euclid_ref_primitive_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & u8 > for IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & u8 > for & 'a IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < u8 > for IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_primitive ( rhs )` => `ibig_div_rem_euclid_primitive_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < u8 > for & IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_primitive ( rhs )` => `ibig_div_rem_euclid_ref_primitive_u8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & u8 > for IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & u8 > for & 'a IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Rem < u16 > for IBig::rem -> r
@rewrite `self . rem_unsigned ( rhs )` => `ibig_rem_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (rhs as int))
@fn Rem < u16 > for & IBig::rem -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ibig_rem_ref_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < u16 > for IBig::div_rem -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ibig_div_rem_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < u16 > for & IBig::div_rem -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ibig_div_rem_ref_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (rhs as int))
@fn Div < u16 > for IBig::div -> r
@rewrite `self . div_primitive ( rhs )` => `ibig_div_primitive_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < u16 > for & IBig::div -> r
@rewrite `self . div_ref_primitive ( rhs )` => `ibig_div_ref_primitive_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & u16 > for IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & u16 > for & 'a IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < u16 > for IBig::div_assign
@rewrite `self . div_assign_primitive ( rhs )` => `ibig_div_assign_primitive_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & u16 > for IBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < & u16 > for IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & u16 > for & 'a IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < u16 > for IBig::rem_assign
@rewrite `self . rem_assign_primitive ( rhs )` => `ibig_rem_assign_primitive_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & u16 > for IBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < & u16 > for IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & u16 > for & 'a IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < u16 > for IBig::div_euclid -> r
@rewrite `self . div_euclid_primitive ( rhs )` => `ibig_div_euclid_primitive_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < u16 > for & IBig::div_euclid -> r
@rewrite `self . div_euclid_ref_primitive ( rhs )` => `ibig_div_euclid_ref_primitive_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & u16 > for IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & u16 > for & 'a IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < u16 > for IBig::rem_euclid -> r
@rewrite `self . rem_euclid_primitive ( rhs )` => `ibig_rem_euclid_primitive_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < u16 > for & IBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_primitive ( rhs )` => `ibig_rem_euclid_ref_primitive_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & u16 > for IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & u16 > for & 'a IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < u16 > for IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_primitive ( rhs )` => `ibig_div_rem_euclid_primitive_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < u16 > for & IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_primitive ( rhs )` => `ibig_div_rem_euclid_ref_primitive_u16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & u16 > for IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & u16 > for & 'a IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Rem < u32 > for IBig::rem -> r
@rewrite `self . rem_unsigned ( rhs )` => `ibig_rem_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (rhs as int))
@fn Rem < u32 > for & IBig::rem -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ibig_rem_ref_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < u32 > for IBig::div_rem -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ibig_div_rem_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < u32 > for & IBig::div_rem -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ibig_div_rem_ref_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (rhs as int))
@fn Div < u32 > for IBig::div -> r
@rewrite `self . div_primitive ( rhs )` => `ibig_div_primitive_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < u32 > for & IBig::div -> r
@rewrite `self . div_ref_primitive ( rhs )` => `ibig_div_ref_primitive_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & u32 > for IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & u32 > for & 'a IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < u32 > for IBig::div_assign
@rewrite `self . div_assign_primitive ( rhs )` => `ibig_div_assign_primitive_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & u32 > for IBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < & u32 > for IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & u32 > for & 'a IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < u32 > for IBig::rem_assign
@rewrite `self . rem_assign_primitive ( rhs )` => `ibig_rem_assign_primitive_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & u32 > for IBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < & u32 > for IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & u32 > for & 'a IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < u32 > for IBig::div_euclid -> r
@rewrite `self . div_euclid_primitive ( rhs )` => `ibig_div_euclid_primitive_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < u32 > for & IBig::div_euclid -> r
@rewrite `self . div_euclid_ref_primitive ( rhs )` => `ibig_div_euclid_ref_primitive_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & u32 > for IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & u32 > for & 'a IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < u32 > for IBig::rem_euclid -> r
@rewrite `self . rem_euclid_primitive ( rhs )` => `ibig_rem_euclid_primitive_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < u32 > for & IBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_primitive ( rhs )` => `ibig_rem_euclid_ref_primitive_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & u32 > for IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & u32 > for & 'a IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < u32 > for IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_primitive ( rhs )` => `ibig_div_rem_euclid_primitive_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < u32 > for & IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_primitive ( rhs )` => `ibig_div_rem_euclid_ref_primitive_u32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & u32 > for IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & u32 > for & 'a IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Rem < u64 > for IBig::rem -> r
@rewrite `self . rem_unsigned ( rhs )` => `ibig_rem_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (rhs as int))
@fn Rem < u64 > for & IBig::rem -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ibig_rem_ref_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < u64 > for IBig::div_rem -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ibig_div_rem_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < u64 > for & IBig::div_rem -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ibig_div_rem_ref_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (rhs as int))
@fn Div < u64 > for IBig::div -> r
@rewrite `self . div_primitive ( rhs )` => `ibig_div_primitive_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < u64 > for & IBig::div -> r
@rewrite `self . div_ref_primitive ( rhs )` => `ibig_div_ref_primitive_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & u64 > for IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & u64 > for & 'a IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < u64 > for IBig::div_assign
@rewrite `self . div_assign_primitive ( rhs )` => `ibig_div_assign_primitive_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & u64 > for IBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < & u64 > for IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & u64 > for & 'a IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < u64 > for IBig::rem_assign
@rewrite `self . rem_assign_primitive ( rhs )` => `ibig_rem_assign_primitive_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & u64 > for IBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < & u64 > for IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & u64 > for & 'a IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < u64 > for IBig::div_euclid -> r
@rewrite `self . div_euclid_primitive ( rhs )` => `ibig_div_euclid_primitive_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < u64 > for & IBig::div_euclid -> r
@rewrite `self . div_euclid_ref_primitive ( rhs )` => `ibig_div_euclid_ref_primitive_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & u64 > for IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & u64 > for & 'a IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < u64 > for IBig::rem_euclid -> r
@rewrite `self . rem_euclid_primitive ( rhs )` => `ibig_rem_euclid_primitive_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < u64 > for & IBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_primitive ( rhs )` => `ibig_rem_euclid_ref_primitive_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & u64 > for IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & u64 > for & 'a IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < u64 > for IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_primitive ( rhs )` => `ibig_div_rem_euclid_primitive_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < u64 > for & IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_primitive ( rhs )` => `ibig_div_rem_euclid_ref_primitive_u64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & u64 > for IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & u64 > for & 'a IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Rem < u128 > for IBig::rem -> r
@rewrite `self . rem_unsigned ( rhs )` => `ibig_rem_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (rhs as int))
@fn Rem < u128 > for & IBig::rem -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ibig_rem_ref_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < u128 > for IBig::div_rem -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ibig_div_rem_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < u128 > for & IBig::div_rem -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ibig_div_rem_ref_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (rhs as int))
@fn Div < u128 > for IBig::div -> r
@rewrite `self . div_primitive ( rhs )` => `ibig_div_primitive_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < u128 > for & IBig::div -> r
@rewrite `self . div_ref_primitive ( rhs )` => `ibig_div_ref_primitive_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & u128 > for IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & u128 > for & 'a IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < u128 > for IBig::div_assign
@rewrite `self . div_assign_primitive ( rhs )` => `ibig_div_assign_primitive_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & u128 > for IBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < & u128 > for IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & u128 > for & 'a IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < u128 > for IBig::rem_assign
@rewrite `self . rem_assign_primitive ( rhs )` => `ibig_rem_assign_primitive_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & u128 > for IBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < & u128 > for IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & u128 > for & 'a IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < u128 > for IBig::div_euclid -> r
@rewrite `self . div_euclid_primitive ( rhs )` => `ibig_div_euclid_primitive_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < u128 > for & IBig::div_euclid -> r
@rewrite `self . div_euclid_ref_primitive ( rhs )` => `ibig_div_euclid_ref_primitive_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & u128 > for IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & u128 > for & 'a IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < u128 > for IBig::rem_euclid -> r
@rewrite `self . rem_euclid_primitive ( rhs )` => `ibig_rem_euclid_primitive_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < u128 > for & IBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_primitive ( rhs )` => `ibig_rem_euclid_ref_primitive_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & u128 > for IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & u128 > for & 'a IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < u128 > for IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_primitive ( rhs )` => `ibig_div_rem_euclid_primitive_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < u128 > for & IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_primitive ( rhs )` => `ibig_div_rem_euclid_ref_primitive_u128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & u128 > for IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & u128 > for & 'a IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Rem < usize > for IBig::rem -> r
@rewrite `self . rem_unsigned ( rhs )` => `ibig_rem_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (rhs as int))
@fn Rem < usize > for & IBig::rem -> r
@rewrite `self . rem_ref_unsigned ( rhs )` => `ibig_rem_ref_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < usize > for IBig::div_rem -> r
@rewrite `self . div_rem_unsigned ( rhs )` => `ibig_div_rem_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < usize > for & IBig::div_rem -> r
@rewrite `self . div_rem_ref_unsigned ( rhs )` => `ibig_div_rem_ref_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (rhs as int))
@fn Div < usize > for IBig::div -> r
@rewrite `self . div_primitive ( rhs )` => `ibig_div_primitive_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < usize > for & IBig::div -> r
@rewrite `self . div_ref_primitive ( rhs )` => `ibig_div_ref_primitive_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & usize > for IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & usize > for & 'a IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < usize > for IBig::div_assign
@rewrite `self . div_assign_primitive ( rhs )` => `ibig_div_assign_primitive_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & usize > for IBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < & usize > for IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & usize > for & 'a IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < usize > for IBig::rem_assign
@rewrite `self . rem_assign_primitive ( rhs )` => `ibig_rem_assign_primitive_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & usize > for IBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < & usize > for IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & usize > for & 'a IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), r.1.wf(), (r.1.v() as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < usize > for IBig::div_euclid -> r
@rewrite `self . div_euclid_primitive ( rhs )` => `ibig_div_euclid_primitive_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < usize > for & IBig::div_euclid -> r
@rewrite `self . div_euclid_ref_primitive ( rhs )` => `ibig_div_euclid_ref_primitive_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & usize > for IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & usize > for & 'a IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < usize > for IBig::rem_euclid -> r
@rewrite `self . rem_euclid_primitive ( rhs )` => `ibig_rem_euclid_primitive_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < usize > for & IBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_primitive ( rhs )` => `ibig_rem_euclid_ref_primitive_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & usize > for IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & usize > for & 'a IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < usize > for IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_primitive ( rhs )` => `ibig_div_rem_euclid_primitive_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < usize > for & IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_primitive ( rhs )` => `ibig_div_rem_euclid_ref_primitive_usize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & usize > for IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & usize > for & 'a IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Rem < i8 > for IBig::rem -> r
@rewrite `self . rem_signed ( rhs )` => `ibig_rem_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < i8 > for & IBig::rem -> r
@rewrite `self . rem_ref_signed ( rhs )` => `ibig_rem_ref_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < i8 > for IBig::div_rem -> r
@rewrite `self . div_rem_signed ( rhs )` => `ibig_div_rem_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < i8 > for & IBig::div_rem -> r
@rewrite `self . div_rem_ref_signed ( rhs )` => `ibig_div_rem_ref_signed_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn Div < i8 > for IBig::div -> r
@rewrite `self . div_primitive ( rhs )` => `ibig_div_primitive_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < i8 > for & IBig::div -> r
@rewrite `self . div_ref_primitive ( rhs )` => `ibig_div_ref_primitive_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & i8 > for IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & i8 > for & 'a IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < i8 > for IBig::div_assign
@rewrite `self . div_assign_primitive ( rhs )` => `ibig_div_assign_primitive_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & i8 > for IBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < & i8 > for IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & i8 > for & 'a IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < i8 > for IBig::rem_assign
@rewrite `self . rem_assign_primitive ( rhs )` => `ibig_rem_assign_primitive_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & i8 > for IBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < & i8 > for IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & i8 > for & 'a IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < i8 > for IBig::div_euclid -> r
@rewrite `self . div_euclid_primitive ( rhs )` => `ibig_div_euclid_primitive_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < i8 > for & IBig::div_euclid -> r
@rewrite `self . div_euclid_ref_primitive ( rhs )` => `ibig_div_euclid_ref_primitive_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & i8 > for IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & i8 > for & 'a IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < i8 > for IBig::rem_euclid -> r
@rewrite `self . rem_euclid_primitive ( rhs )` => `ibig_rem_euclid_primitive_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < i8 > for & IBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_primitive ( rhs )` => `ibig_rem_euclid_ref_primitive_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & i8 > for IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & i8 > for & 'a IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < i8 > for IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_primitive ( rhs )` => `ibig_div_rem_euclid_primitive_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < i8 > for & IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_primitive ( rhs )` => `ibig_div_rem_euclid_ref_primitive_i8(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & i8 > for IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & i8 > for & 'a IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Rem < i16 > for IBig::rem -> r
@rewrite `self . rem_signed ( rhs )` => `ibig_rem_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < i16 > for & IBig::rem -> r
@rewrite `self . rem_ref_signed ( rhs )` => `ibig_rem_ref_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < i16 > for IBig::div_rem -> r
@rewrite `self . div_rem_signed ( rhs )` => `ibig_div_rem_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < i16 > for & IBig::div_rem -> r
@rewrite `self . div_rem_ref_signed ( rhs )` => `ibig_div_rem_ref_signed_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn Div < i16 > for IBig::div -> r
@rewrite `self . div_primitive ( rhs )` => `ibig_div_primitive_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < i16 > for & IBig::div -> r
@rewrite `self . div_ref_primitive ( rhs )` => `ibig_div_ref_primitive_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & i16 > for IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & i16 > for & 'a IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < i16 > for IBig::div_assign
@rewrite `self . div_assign_primitive ( rhs )` => `ibig_div_assign_primitive_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & i16 > for IBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < & i16 > for IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & i16 > for & 'a IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < i16 > for IBig::rem_assign
@rewrite `self . rem_assign_primitive ( rhs )` => `ibig_rem_assign_primitive_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & i16 > for IBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < & i16 > for IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & i16 > for & 'a IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < i16 > for IBig::div_euclid -> r
@rewrite `self . div_euclid_primitive ( rhs )` => `ibig_div_euclid_primitive_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < i16 > for & IBig::div_euclid -> r
@rewrite `self . div_euclid_ref_primitive ( rhs )` => `ibig_div_euclid_ref_primitive_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & i16 > for IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & i16 > for & 'a IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < i16 > for IBig::rem_euclid -> r
@rewrite `self . rem_euclid_primitive ( rhs )` => `ibig_rem_euclid_primitive_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < i16 > for & IBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_primitive ( rhs )` => `ibig_rem_euclid_ref_primitive_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & i16 > for IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & i16 > for & 'a IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < i16 > for IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_primitive ( rhs )` => `ibig_div_rem_euclid_primitive_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < i16 > for & IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_primitive ( rhs )` => `ibig_div_rem_euclid_ref_primitive_i16(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & i16 > for IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & i16 > for & 'a IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Rem < i32 > for IBig::rem -> r
@rewrite `self . rem_signed ( rhs )` => `ibig_rem_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < i32 > for & IBig::rem -> r
@rewrite `self . rem_ref_signed ( rhs )` => `ibig_rem_ref_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < i32 > for IBig::div_rem -> r
@rewrite `self . div_rem_signed ( rhs )` => `ibig_div_rem_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < i32 > for & IBig::div_rem -> r
@rewrite `self . div_rem_ref_signed ( rhs )` => `ibig_div_rem_ref_signed_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn Div < i32 > for IBig::div -> r
@rewrite `self . div_primitive ( rhs )` => `ibig_div_primitive_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < i32 > for & IBig::div -> r
@rewrite `self . div_ref_primitive ( rhs )` => `ibig_div_ref_primitive_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & i32 > for IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & i32 > for & 'a IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < i32 > for IBig::div_assign
@rewrite `self . div_assign_primitive ( rhs )` => `ibig_div_assign_primitive_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & i32 > for IBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < & i32 > for IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & i32 > for & 'a IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < i32 > for IBig::rem_assign
@rewrite `self . rem_assign_primitive ( rhs )` => `ibig_rem_assign_primitive_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & i32 > for IBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < & i32 > for IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & i32 > for & 'a IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < i32 > for IBig::div_euclid -> r
@rewrite `self . div_euclid_primitive ( rhs )` => `ibig_div_euclid_primitive_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < i32 > for & IBig::div_euclid -> r
@rewrite `self . div_euclid_ref_primitive ( rhs )` => `ibig_div_euclid_ref_primitive_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & i32 > for IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & i32 > for & 'a IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < i32 > for IBig::rem_euclid -> r
@rewrite `self . rem_euclid_primitive ( rhs )` => `ibig_rem_euclid_primitive_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < i32 > for & IBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_primitive ( rhs )` => `ibig_rem_euclid_ref_primitive_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & i32 > for IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & i32 > for & 'a IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < i32 > for IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_primitive ( rhs )` => `ibig_div_rem_euclid_primitive_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < i32 > for & IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_primitive ( rhs )` => `ibig_div_rem_euclid_ref_primitive_i32(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & i32 > for IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & i32 > for & 'a IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Rem < i64 > for IBig::rem -> r
@rewrite `self . rem_signed ( rhs )` => `ibig_rem_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < i64 > for & IBig::rem -> r
@rewrite `self . rem_ref_signed ( rhs )` => `ibig_rem_ref_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < i64 > for IBig::div_rem -> r
@rewrite `self . div_rem_signed ( rhs )` => `ibig_div_rem_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < i64 > for & IBig::div_rem -> r
@rewrite `self . div_rem_ref_signed ( rhs )` => `ibig_div_rem_ref_signed_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn Div < i64 > for IBig::div -> r
@rewrite `self . div_primitive ( rhs )` => `ibig_div_primitive_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < i64 > for & IBig::div -> r
@rewrite `self . div_ref_primitive ( rhs )` => `ibig_div_ref_primitive_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & i64 > for IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & i64 > for & 'a IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < i64 > for IBig::div_assign
@rewrite `self . div_assign_primitive ( rhs )` => `ibig_div_assign_primitive_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & i64 > for IBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < & i64 > for IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & i64 > for & 'a IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < i64 > for IBig::rem_assign
@rewrite `self . rem_assign_primitive ( rhs )` => `ibig_rem_assign_primitive_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & i64 > for IBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < & i64 > for IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & i64 > for & 'a IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < i64 > for IBig::div_euclid -> r
@rewrite `self . div_euclid_primitive ( rhs )` => `ibig_div_euclid_primitive_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < i64 > for & IBig::div_euclid -> r
@rewrite `self . div_euclid_ref_primitive ( rhs )` => `ibig_div_euclid_ref_primitive_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & i64 > for IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & i64 > for & 'a IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < i64 > for IBig::rem_euclid -> r
@rewrite `self . rem_euclid_primitive ( rhs )` => `ibig_rem_euclid_primitive_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < i64 > for & IBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_primitive ( rhs )` => `ibig_rem_euclid_ref_primitive_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & i64 > for IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & i64 > for & 'a IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < i64 > for IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_primitive ( rhs )` => `ibig_div_rem_euclid_primitive_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < i64 > for & IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_primitive ( rhs )` => `ibig_div_rem_euclid_ref_primitive_i64(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & i64 > for IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & i64 > for & 'a IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Rem < i128 > for IBig::rem -> r
@rewrite `self . rem_signed ( rhs )` => `ibig_rem_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < i128 > for & IBig::rem -> r
@rewrite `self . rem_ref_signed ( rhs )` => `ibig_rem_ref_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < i128 > for IBig::div_rem -> r
@rewrite `self . div_rem_signed ( rhs )` => `ibig_div_rem_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < i128 > for & IBig::div_rem -> r
@rewrite `self . div_rem_ref_signed ( rhs )` => `ibig_div_rem_ref_signed_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn Div < i128 > for IBig::div -> r
@rewrite `self . div_primitive ( rhs )` => `ibig_div_primitive_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < i128 > for & IBig::div -> r
@rewrite `self . div_ref_primitive ( rhs )` => `ibig_div_ref_primitive_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & i128 > for IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & i128 > for & 'a IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < i128 > for IBig::div_assign
@rewrite `self . div_assign_primitive ( rhs )` => `ibig_div_assign_primitive_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & i128 > for IBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < & i128 > for IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & i128 > for & 'a IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < i128 > for IBig::rem_assign
@rewrite `self . rem_assign_primitive ( rhs )` => `ibig_rem_assign_primitive_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & i128 > for IBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < & i128 > for IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & i128 > for & 'a IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < i128 > for IBig::div_euclid -> r
@rewrite `self . div_euclid_primitive ( rhs )` => `ibig_div_euclid_primitive_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < i128 > for & IBig::div_euclid -> r
@rewrite `self . div_euclid_ref_primitive ( rhs )` => `ibig_div_euclid_ref_primitive_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & i128 > for IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & i128 > for & 'a IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < i128 > for IBig::rem_euclid -> r
@rewrite `self . rem_euclid_primitive ( rhs )` => `ibig_rem_euclid_primitive_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < i128 > for & IBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_primitive ( rhs )` => `ibig_rem_euclid_ref_primitive_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & i128 > for IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & i128 > for & 'a IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < i128 > for IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_primitive ( rhs )` => `ibig_div_rem_euclid_primitive_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < i128 > for & IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_primitive ( rhs )` => `ibig_div_rem_euclid_ref_primitive_i128(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & i128 > for IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & i128 > for & 'a IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn Rem < isize > for IBig::rem -> r
@rewrite `self . rem_signed ( rhs )` => `ibig_rem_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn Rem < isize > for & IBig::rem -> r
@rewrite `self . rem_ref_signed ( rhs )` => `ibig_rem_ref_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < isize > for IBig::div_rem -> r
@rewrite `self . div_rem_signed ( rhs )` => `ibig_div_rem_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn DivRem < isize > for & IBig::div_rem -> r
@rewrite `self . div_rem_ref_signed ( rhs )` => `ibig_div_rem_ref_signed_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (rhs as int)), (r.1 as int) == tr((self.v() as int), (rhs as int))
@fn Div < isize > for IBig::div -> r
@rewrite `self . div_primitive ( rhs )` => `ibig_div_primitive_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < isize > for & IBig::div -> r
@rewrite `self . div_ref_primitive ( rhs )` => `ibig_div_ref_primitive_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (rhs as int))
@fn Div < & isize > for IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn Div < & isize > for & 'a IBig::div -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == tq((self.v() as int), (*rhs as int))
@fn DivAssign < isize > for IBig::div_assign
@rewrite `self . div_assign_primitive ( rhs )` => `ibig_div_assign_primitive_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (rhs as int))
@fn DivAssign < & isize > for IBig::div_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tq((old(self).v() as int), (*rhs as int))
@fn Rem < & isize > for IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn Rem < & isize > for & 'a IBig::rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == tr((self.v() as int), (*rhs as int))
@fn RemAssign < isize > for IBig::rem_assign
@rewrite `self . rem_assign_primitive ( rhs )` => `ibig_rem_assign_primitive_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (rhs as int))
@fn RemAssign < & isize > for IBig::rem_assign
@pre self.wf()
@panics (*rhs as int) == 0
    ensures final(self).wf(), (final(self).v() as int) == tr((old(self).v() as int), (*rhs as int))
@fn DivRem < & isize > for IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivRem < & isize > for & 'a IBig::div_rem -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == tq((self.v() as int), (*rhs as int)), (r.1 as int) == tr((self.v() as int), (*rhs as int))
@fn DivEuclid < isize > for IBig::div_euclid -> r
@rewrite `self . div_euclid_primitive ( rhs )` => `ibig_div_euclid_primitive_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < isize > for & IBig::div_euclid -> r
@rewrite `self . div_euclid_ref_primitive ( rhs )` => `ibig_div_euclid_ref_primitive_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (rhs as int)
@fn DivEuclid < & isize > for IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn DivEuclid < & isize > for & 'a IBig::div_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.wf(), (r.v() as int) == (self.v() as int) / (*rhs as int)
@fn RemEuclid < isize > for IBig::rem_euclid -> r
@rewrite `self . rem_euclid_primitive ( rhs )` => `ibig_rem_euclid_primitive_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < isize > for & IBig::rem_euclid -> r
@rewrite `self . rem_euclid_ref_primitive ( rhs )` => `ibig_rem_euclid_ref_primitive_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (rhs as int)
@fn RemEuclid < & isize > for IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn RemEuclid < & isize > for & 'a IBig::rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures (r as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < isize > for IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_primitive ( rhs )` => `ibig_div_rem_euclid_primitive_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < isize > for & IBig::div_rem_euclid -> r
@rewrite `self . div_rem_euclid_ref_primitive ( rhs )` => `ibig_div_rem_euclid_ref_primitive_isize(self, rhs)`
@pre self.wf()
@panics (rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (rhs as int), (r.1 as int) == (self.v() as int) % (rhs as int)
@fn DivRemEuclid < & isize > for IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@fn DivRemEuclid < & isize > for & 'a IBig::div_rem_euclid -> r
@pre self.wf()
@panics (*rhs as int) == 0
    ensures r.0.wf(), (r.0.v() as int) == (self.v() as int) / (*rhs as int), (r.1 as int) == (self.v() as int) % (*rhs as int)
@file bits.rs
@expand impl_bit_ops_ubig_unsigned
@expand impl_bit_ops_ubig_signed
@expand impl_bit_ops_ibig_unsigned
@expand impl_bit_ops_ibig_signed
@expand impl_bit_ops_ibig_primitive
@expand forward_binop_second_arg_by_value
@expand forward_binop_swap_args
@expand forward_binop_assign_arg_by_value
@fn BitAnd < u8 > for UBig::bitand -> r
@rewrite `self . bitand_unsigned ( rhs )` => `ubig_bitand_unsigned_u8(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < u8 > for & UBig::bitand -> r
@rewrite `self . bitand_ref_unsigned ( rhs )` => `ubig_bitand_ref_unsigned_u8(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < & u8 > for UBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & u8 > for & 'a UBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < UBig > for u8::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for u8::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < UBig > for & 'a u8::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for & 'b u8::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < u8 > for UBig::bitand_assign
@rewrite `self . bitand_assign_unsigned ( rhs )` => `ubig_bitand_assign_unsigned_u8(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & u8 > for UBig::bitand_assign
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < u8 > for UBig::bitor -> r
@rewrite `self . bitor_unsigned ( rhs )` => `ubig_bitor_unsigned_u8(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < u8 > for & UBig::bitor -> r
@rewrite `self . bitor_ref_unsigned ( rhs )` => `ubig_bitor_ref_unsigned_u8(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & u8 > for UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & u8 > for & 'a UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < UBig > for u8::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for u8::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < UBig > for & 'a u8::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for & 'b u8::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < u8 > for UBig::bitor_assign
@rewrite `self . bitor_assign_unsigned ( rhs )` => `ubig_bitor_assign_unsigned_u8(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & u8 > for UBig::bitor_assign
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < u8 > for UBig::bitxor -> r
@rewrite `self . bitxor_unsigned ( rhs )` => `ubig_bitxor_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < u8 > for & UBig::bitxor -> r
@rewrite `self . bitxor_ref_unsigned ( rhs )` => `ubig_bitxor_ref_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & u8 > for UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & u8 > for & 'a UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < UBig > for u8::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for u8::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < UBig > for & 'a u8::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for & 'b u8::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < u8 > for UBig::bitxor_assign
@rewrite `self . bitxor_assign_unsigned ( rhs )` => `ubig_bitxor_assign_unsigned_u8(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & u8 > for UBig::bitxor_assign
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < u8 > for UBig::and_not -> r
@rewrite `self . and_not_unsigned ( rhs )` => `ubig_and_not_unsigned_u8(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < u8 > for & UBig::and_not -> r
@rewrite `self . and_not_ref_unsigned ( rhs )` => `ubig_and_not_ref_unsigned_u8(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & u8 > for UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & u8 > for & 'a UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < u16 > for UBig::bitand -> r
@rewrite `self . bitand_unsigned ( rhs )` => `ubig_bitand_unsigned_u16(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < u16 > for & UBig::bitand -> r
@rewrite `self . bitand_ref_unsigned ( rhs )` => `ubig_bitand_ref_unsigned_u16(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < & u16 > for UBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & u16 > for & 'a UBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < UBig > for u16::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for u16::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < UBig > for & 'a u16::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for & 'b u16::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < u16 > for UBig::bitand_assign
@rewrite `self . bitand_assign_unsigned ( rhs )` => `ubig_bitand_assign_unsigned_u16(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & u16 > for UBig::bitand_assign
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < u16 > for UBig::bitor -> r
@rewrite `self . bitor_unsigned ( rhs )` => `ubig_bitor_unsigned_u16(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < u16 > for & UBig::bitor -> r
@rewrite `self . bitor_ref_unsigned ( rhs )` => `ubig_bitor_ref_unsigned_u16(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & u16 > for UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & u16 > for & 'a UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < UBig > for u16::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for u16::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < UBig > for & 'a u16::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for & 'b u16::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < u16 > for UBig::bitor_assign
@rewrite `self . bitor_assign_unsigned ( rhs )` => `ubig_bitor_assign_unsigned_u16(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & u16 > for UBig::bitor_assign
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < u16 > for UBig::bitxor -> r
@rewrite `self . bitxor_unsigned ( rhs )` => `ubig_bitxor_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < u16 > for & UBig::bitxor -> r
@rewrite `self . bitxor_ref_unsigned ( rhs )` => `ubig_bitxor_ref_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & u16 > for UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & u16 > for & 'a UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < UBig > for u16::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for u16::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < UBig > for & 'a u16::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for & 'b u16::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < u16 > for UBig::bitxor_assign
@rewrite `self . bitxor_assign_unsigned ( rhs )` => `ubig_bitxor_assign_unsigned_u16(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & u16 > for UBig::bitxor_assign
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < u16 > for UBig::and_not -> r
@rewrite `self . and_not_unsigned ( rhs )` => `ubig_and_not_unsigned_u16(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < u16 > for & UBig::and_not -> r
@rewrite `self . and_not_ref_unsigned ( rhs )` => `ubig_and_not_ref_unsigned_u16(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & u16 > for UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & u16 > for & 'a UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < u32 > for UBig::bitand -> r
@rewrite `self . bitand_unsigned ( rhs )` => `ubig_bitand_unsigned_u32(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < u32 > for & UBig::bitand -> r
@rewrite `self . bitand_ref_unsigned ( rhs )` => `ubig_bitand_ref_unsigned_u32(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < & u32 > for UBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & u32 > for & 'a UBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < UBig > for u32::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for u32::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < UBig > for & 'a u32::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for & 'b u32::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < u32 > for UBig::bitand_assign
@rewrite `self . bitand_assign_unsigned ( rhs )` => `ubig_bitand_assign_unsigned_u32(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & u32 > for UBig::bitand_assign
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < u32 > for UBig::bitor -> r
@rewrite `self . bitor_unsigned ( rhs )` => `ubig_bitor_unsigned_u32(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < u32 > for & UBig::bitor -> r
@rewrite `self . bitor_ref_unsigned ( rhs )` => `ubig_bitor_ref_unsigned_u32(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & u32 > for UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & u32 > for & 'a UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < UBig > for u32::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for u32::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < UBig > for & 'a u32::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for & 'b u32::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < u32 > for UBig::bitor_assign
@rewrite `self . bitor_assign_unsigned ( rhs )` => `ubig_bitor_assign_unsigned_u32(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & u32 > for UBig::bitor_assign
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < u32 > for UBig::bitxor -> r
@rewrite `self . bitxor_unsigned ( rhs )` => `ubig_bitxor_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < u32 > for & UBig::bitxor -> r
@rewrite `self . bitxor_ref_unsigned ( rhs )` => `ubig_bitxor_ref_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & u32 > for UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & u32 > for & 'a UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < UBig > for u32::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for u32::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < UBig > for & 'a u32::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for & 'b u32::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < u32 > for UBig::bitxor_assign
@rewrite `self . bitxor_assign_unsigned ( rhs )` => `ubig_bitxor_assign_unsigned_u32(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & u32 > for UBig::bitxor_assign
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < u32 > for UBig::and_not -> r
@rewrite `self . and_not_unsigned ( rhs )` => `ubig_and_not_unsigned_u32(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < u32 > for & UBig::and_not -> r
@rewrite `self . and_not_ref_unsigned ( rhs )` => `ubig_and_not_ref_unsigned_u32(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & u32 > for UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & u32 > for & 'a UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < u64 > for UBig::bitand -> r
@rewrite `self . bitand_unsigned ( rhs )` => `ubig_bitand_unsigned_u64(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < u64 > for & UBig::bitand -> r
@rewrite `self . bitand_ref_unsigned ( rhs )` => `ubig_bitand_ref_unsigned_u64(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < & u64 > for UBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & u64 > for & 'a UBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < UBig > for u64::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for u64::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < UBig > for & 'a u64::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for & 'b u64::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < u64 > for UBig::bitand_assign
@rewrite `self . bitand_assign_unsigned ( rhs )` => `ubig_bitand_assign_unsigned_u64(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & u64 > for UBig::bitand_assign
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < u64 > for UBig::bitor -> r
@rewrite `self . bitor_unsigned ( rhs )` => `ubig_bitor_unsigned_u64(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < u64 > for & UBig::bitor -> r
@rewrite `self . bitor_ref_unsigned ( rhs )` => `ubig_bitor_ref_unsigned_u64(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & u64 > for UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & u64 > for & 'a UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < UBig > for u64::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for u64::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < UBig > for & 'a u64::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for & 'b u64::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < u64 > for UBig::bitor_assign
@rewrite `self . bitor_assign_unsigned ( rhs )` => `ubig_bitor_assign_unsigned_u64(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & u64 > for UBig::bitor_assign
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < u64 > for UBig::bitxor -> r
@rewrite `self . bitxor_unsigned ( rhs )` => `ubig_bitxor_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < u64 > for & UBig::bitxor -> r
@rewrite `self . bitxor_ref_unsigned ( rhs )` => `ubig_bitxor_ref_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & u64 > for UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & u64 > for & 'a UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < UBig > for u64::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for u64::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < UBig > for & 'a u64::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for & 'b u64::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < u64 > for UBig::bitxor_assign
@rewrite `self . bitxor_assign_unsigned ( rhs )` => `ubig_bitxor_assign_unsigned_u64(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & u64 > for UBig::bitxor_assign
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < u64 > for UBig::and_not -> r
@rewrite `self . and_not_unsigned ( rhs )` => `ubig_and_not_unsigned_u64(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < u64 > for & UBig::and_not -> r
@rewrite `self . and_not_ref_unsigned ( rhs )` => `ubig_and_not_ref_unsigned_u64(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & u64 > for UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & u64 > for & 'a UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < u128 > for UBig::bitand -> r
@rewrite `self . bitand_unsigned ( rhs )` => `ubig_bitand_unsigned_u128(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < u128 > for & UBig::bitand -> r
@rewrite `self . bitand_ref_unsigned ( rhs )` => `ubig_bitand_ref_unsigned_u128(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < & u128 > for UBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & u128 > for & 'a UBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < UBig > for u128::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for u128::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < UBig > for & 'a u128::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for & 'b u128::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < u128 > for UBig::bitand_assign
@rewrite `self . bitand_assign_unsigned ( rhs )` => `ubig_bitand_assign_unsigned_u128(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & u128 > for UBig::bitand_assign
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < u128 > for UBig::bitor -> r
@rewrite `self . bitor_unsigned ( rhs )` => `ubig_bitor_unsigned_u128(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < u128 > for & UBig::bitor -> r
@rewrite `self . bitor_ref_unsigned ( rhs )` => `ubig_bitor_ref_unsigned_u128(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & u128 > for UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & u128 > for & 'a UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < UBig > for u128::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for u128::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < UBig > for & 'a u128::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for & 'b u128::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < u128 > for UBig::bitor_assign
@rewrite `self . bitor_assign_unsigned ( rhs )` => `ubig_bitor_assign_unsigned_u128(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & u128 > for UBig::bitor_assign
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < u128 > for UBig::bitxor -> r
@rewrite `self . bitxor_unsigned ( rhs )` => `ubig_bitxor_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < u128 > for & UBig::bitxor -> r
@rewrite `self . bitxor_ref_unsigned ( rhs )` => `ubig_bitxor_ref_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & u128 > for UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & u128 > for & 'a UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < UBig > for u128::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for u128::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < UBig > for & 'a u128::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for & 'b u128::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < u128 > for UBig::bitxor_assign
@rewrite `self . bitxor_assign_unsigned ( rhs )` => `ubig_bitxor_assign_unsigned_u128(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & u128 > for UBig::bitxor_assign
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < u128 > for UBig::and_not -> r
@rewrite `self . and_not_unsigned ( rhs )` => `ubig_and_not_unsigned_u128(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < u128 > for & UBig::and_not -> r
@rewrite `self . and_not_ref_unsigned ( rhs )` => `ubig_and_not_ref_unsigned_u128(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & u128 > for UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & u128 > for & 'a UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < usize > for UBig::bitand -> r
@rewrite `self . bitand_unsigned ( rhs )` => `ubig_bitand_unsigned_usize(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < usize > for & UBig::bitand -> r
@rewrite `self . bitand_ref_unsigned ( rhs )` => `ubig_bitand_ref_unsigned_usize(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < & usize > for UBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & usize > for & 'a UBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < UBig > for usize::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for usize::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < UBig > for & 'a usize::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for & 'b usize::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < usize > for UBig::bitand_assign
@rewrite `self . bitand_assign_unsigned ( rhs )` => `ubig_bitand_assign_unsigned_usize(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & usize > for UBig::bitand_assign
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < usize > for UBig::bitor -> r
@rewrite `self . bitor_unsigned ( rhs )` => `ubig_bitor_unsigned_usize(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < usize > for & UBig::bitor -> r
@rewrite `self . bitor_ref_unsigned ( rhs )` => `ubig_bitor_ref_unsigned_usize(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & usize > for UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & usize > for & 'a UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < UBig > for usize::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for usize::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < UBig > for & 'a usize::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for & 'b usize::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < usize > for UBig::bitor_assign
@rewrite `self . bitor_assign_unsigned ( rhs )` => `ubig_bitor_assign_unsigned_usize(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & usize > for UBig::bitor_assign
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < usize > for UBig::bitxor -> r
@rewrite `self . bitxor_unsigned ( rhs )` => `ubig_bitxor_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < usize > for & UBig::bitxor -> r
@rewrite `self . bitxor_ref_unsigned ( rhs )` => `ubig_bitxor_ref_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & usize > for UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & usize > for & 'a UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < UBig > for usize::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for usize::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < UBig > for & 'a usize::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for & 'b usize::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < usize > for UBig::bitxor_assign
@rewrite `self . bitxor_assign_unsigned ( rhs )` => `ubig_bitxor_assign_unsigned_usize(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & usize > for UBig::bitxor_assign
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < usize > for UBig::and_not -> r
@rewrite `self . and_not_unsigned ( rhs )` => `ubig_and_not_unsigned_usize(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < usize > for & UBig::and_not -> r
@rewrite `self . and_not_ref_unsigned ( rhs )` => `ubig_and_not_ref_unsigned_usize(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & usize > for UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & usize > for & 'a UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < i8 > for UBig::bitand -> r
@rewrite `self . bitand_signed ( rhs )` => `ubig_bitand_signed_i8(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < i8 > for & UBig::bitand -> r
@rewrite `self . bitand_ref_signed ( rhs )` => `ubig_bitand_ref_signed_i8(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < & i8 > for UBig::bitand -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & i8 > for & 'a UBig::bitand -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < UBig > for i8::bitand -> r
@pre rhs.wf()
@panics ((self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for i8::bitand -> r
@pre rhs.wf()
@panics ((self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < UBig > for & 'a i8::bitand -> r
@pre rhs.wf()
@panics ((*self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for & 'b i8::bitand -> r
@pre rhs.wf()
@panics ((*self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < i8 > for UBig::bitand_assign
@rewrite `self . bitand_assign_signed ( rhs )` => `ubig_bitand_assign_signed_i8(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & i8 > for UBig::bitand_assign
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < i8 > for UBig::bitor -> r
@rewrite `self . bitor_signed ( rhs )` => `ubig_bitor_signed_i8(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < i8 > for & UBig::bitor -> r
@rewrite `self . bitor_ref_signed ( rhs )` => `ubig_bitor_ref_signed_i8(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & i8 > for UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & i8 > for & 'a UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < UBig > for i8::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for i8::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < UBig > for & 'a i8::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for & 'b i8::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < i8 > for UBig::bitor_assign
@rewrite `self . bitor_assign_signed ( rhs )` => `ubig_bitor_assign_signed_i8(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & i8 > for UBig::bitor_assign
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < i8 > for UBig::bitxor -> r
@rewrite `self . bitxor_signed ( rhs )` => `ubig_bitxor_signed_i8(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < i8 > for & UBig::bitxor -> r
@rewrite `self . bitxor_ref_signed ( rhs )` => `ubig_bitxor_ref_signed_i8(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & i8 > for UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & i8 > for & 'a UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < UBig > for i8::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for i8::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < UBig > for & 'a i8::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for & 'b i8::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < i8 > for UBig::bitxor_assign
@rewrite `self . bitxor_assign_signed ( rhs )` => `ubig_bitxor_assign_signed_i8(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & i8 > for UBig::bitxor_assign
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < i8 > for UBig::and_not -> r
@rewrite `self . and_not_signed ( rhs )` => `ubig_and_not_signed_i8(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < i8 > for & UBig::and_not -> r
@rewrite `self . and_not_ref_signed ( rhs )` => `ubig_and_not_ref_signed_i8(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & i8 > for UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & i8 > for & 'a UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < i16 > for UBig::bitand -> r
@rewrite `self . bitand_signed ( rhs )` => `ubig_bitand_signed_i16(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < i16 > for & UBig::bitand -> r
@rewrite `self . bitand_ref_signed ( rhs )` => `ubig_bitand_ref_signed_i16(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < & i16 > for UBig::bitand -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & i16 > for & 'a UBig::bitand -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < UBig > for i16::bitand -> r
@pre rhs.wf()
@panics ((self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for i16::bitand -> r
@pre rhs.wf()
@panics ((self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < UBig > for & 'a i16::bitand -> r
@pre rhs.wf()
@panics ((*self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for & 'b i16::bitand -> r
@pre rhs.wf()
@panics ((*self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < i16 > for UBig::bitand_assign
@rewrite `self . bitand_assign_signed ( rhs )` => `ubig_bitand_assign_signed_i16(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & i16 > for UBig::bitand_assign
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < i16 > for UBig::bitor -> r
@rewrite `self . bitor_signed ( rhs )` => `ubig_bitor_signed_i16(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < i16 > for & UBig::bitor -> r
@rewrite `self . bitor_ref_signed ( rhs )` => `ubig_bitor_ref_signed_i16(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & i16 > for UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & i16 > for & 'a UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < UBig > for i16::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for i16::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < UBig > for & 'a i16::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for & 'b i16::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < i16 > for UBig::bitor_assign
@rewrite `self . bitor_assign_signed ( rhs )` => `ubig_bitor_assign_signed_i16(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & i16 > for UBig::bitor_assign
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < i16 > for UBig::bitxor -> r
@rewrite `self . bitxor_signed ( rhs )` => `ubig_bitxor_signed_i16(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < i16 > for & UBig::bitxor -> r
@rewrite `self . bitxor_ref_signed ( rhs )` => `ubig_bitxor_ref_signed_i16(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & i16 > for UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & i16 > for & 'a UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < UBig > for i16::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for i16::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < UBig > for & 'a i16::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for & 'b i16::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < i16 > for UBig::bitxor_assign
@rewrite `self . bitxor_assign_signed ( rhs )` => `ubig_bitxor_assign_signed_i16(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & i16 > for UBig::bitxor_assign
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < i16 > for UBig::and_not -> r
@rewrite `self . and_not_signed ( rhs )` => `ubig_and_not_signed_i16(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < i16 > for & UBig::and_not -> r
@rewrite `self . and_not_ref_signed ( rhs )` => `ubig_and_not_ref_signed_i16(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & i16 > for UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & i16 > for & 'a UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < i32 > for UBig::bitand -> r
@rewrite `self . bitand_signed ( rhs )` => `ubig_bitand_signed_i32(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < i32 > for & UBig::bitand -> r
@rewrite `self . bitand_ref_signed ( rhs )` => `ubig_bitand_ref_signed_i32(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < & i32 > for UBig::bitand -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & i32 > for & 'a UBig::bitand -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < UBig > for i32::bitand -> r
@pre rhs.wf()
@panics ((self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for i32::bitand -> r
@pre rhs.wf()
@panics ((self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < UBig > for & 'a i32::bitand -> r
@pre rhs.wf()
@panics ((*self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for & 'b i32::bitand -> r
@pre rhs.wf()
@panics ((*self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < i32 > for UBig::bitand_assign
@rewrite `self . bitand_assign_signed ( rhs )` => `ubig_bitand_assign_signed_i32(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & i32 > for UBig::bitand_assign
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < i32 > for UBig::bitor -> r
@rewrite `self . bitor_signed ( rhs )` => `ubig_bitor_signed_i32(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < i32 > for & UBig::bitor -> r
@rewrite `self . bitor_ref_signed ( rhs )` => `ubig_bitor_ref_signed_i32(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & i32 > for UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & i32 > for & 'a UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < UBig > for i32::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for i32::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < UBig > for & 'a i32::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for & 'b i32::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < i32 > for UBig::bitor_assign
@rewrite `self . bitor_assign_signed ( rhs )` => `ubig_bitor_assign_signed_i32(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & i32 > for UBig::bitor_assign
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < i32 > for UBig::bitxor -> r
@rewrite `self . bitxor_signed ( rhs )` => `ubig_bitxor_signed_i32(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < i32 > for & UBig::bitxor -> r
@rewrite `self . bitxor_ref_signed ( rhs )` => `ubig_bitxor_ref_signed_i32(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & i32 > for UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & i32 > for & 'a UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < UBig > for i32::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for i32::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < UBig > for & 'a i32::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for & 'b i32::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < i32 > for UBig::bitxor_assign
@rewrite `self . bitxor_assign_signed ( rhs )` => `ubig_bitxor_assign_signed_i32(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & i32 > for UBig::bitxor_assign
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < i32 > for UBig::and_not -> r
@rewrite `self . and_not_signed ( rhs )` => `ubig_and_not_signed_i32(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < i32 > for & UBig::and_not -> r
@rewrite `self . and_not_ref_signed ( rhs )` => `ubig_and_not_ref_signed_i32(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & i32 > for UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & i32 > for & 'a UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < i64 > for UBig::bitand -> r
@rewrite `self . bitand_signed ( rhs )` => `ubig_bitand_signed_i64(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < i64 > for & UBig::bitand -> r
@rewrite `self . bitand_ref_signed ( rhs )` => `ubig_bitand_ref_signed_i64(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < & i64 > for UBig::bitand -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & i64 > for & 'a UBig::bitand -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < UBig > for i64::bitand -> r
@pre rhs.wf()
@panics ((self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for i64::bitand -> r
@pre rhs.wf()
@panics ((self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < UBig > for & 'a i64::bitand -> r
@pre rhs.wf()
@panics ((*self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for & 'b i64::bitand -> r
@pre rhs.wf()
@panics ((*self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < i64 > for UBig::bitand_assign
@rewrite `self . bitand_assign_signed ( rhs )` => `ubig_bitand_assign_signed_i64(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & i64 > for UBig::bitand_assign
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < i64 > for UBig::bitor -> r
@rewrite `self . bitor_signed ( rhs )` => `ubig_bitor_signed_i64(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < i64 > for & UBig::bitor -> r
@rewrite `self . bitor_ref_signed ( rhs )` => `ubig_bitor_ref_signed_i64(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & i64 > for UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & i64 > for & 'a UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < UBig > for i64::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for i64::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < UBig > for & 'a i64::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for & 'b i64::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < i64 > for UBig::bitor_assign
@rewrite `self . bitor_assign_signed ( rhs )` => `ubig_bitor_assign_signed_i64(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & i64 > for UBig::bitor_assign
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < i64 > for UBig::bitxor -> r
@rewrite `self . bitxor_signed ( rhs )` => `ubig_bitxor_signed_i64(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < i64 > for & UBig::bitxor -> r
@rewrite `self . bitxor_ref_signed ( rhs )` => `ubig_bitxor_ref_signed_i64(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & i64 > for UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & i64 > for & 'a UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < UBig > for i64::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for i64::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < UBig > for & 'a i64::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for & 'b i64::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < i64 > for UBig::bitxor_assign
@rewrite `self . bitxor_assign_signed ( rhs )` => `ubig_bitxor_assign_signed_i64(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & i64 > for UBig::bitxor_assign
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < i64 > for UBig::and_not -> r
@rewrite `self . and_not_signed ( rhs )` => `ubig_and_not_signed_i64(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < i64 > for & UBig::and_not -> r
@rewrite `self . and_not_ref_signed ( rhs )` => `ubig_and_not_ref_signed_i64(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & i64 > for UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & i64 > for & 'a UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < i128 > for UBig::bitand -> r
@rewrite `self . bitand_signed ( rhs )` => `ubig_bitand_signed_i128(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < i128 > for & UBig::bitand -> r
@rewrite `self . bitand_ref_signed ( rhs )` => `ubig_bitand_ref_signed_i128(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < & i128 > for UBig::bitand -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & i128 > for & 'a UBig::bitand -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < UBig > for i128::bitand -> r
@pre rhs.wf()
@panics ((self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for i128::bitand -> r
@pre rhs.wf()
@panics ((self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < UBig > for & 'a i128::bitand -> r
@pre rhs.wf()
@panics ((*self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for & 'b i128::bitand -> r
@pre rhs.wf()
@panics ((*self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < i128 > for UBig::bitand_assign
@rewrite `self . bitand_assign_signed ( rhs )` => `ubig_bitand_assign_signed_i128(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & i128 > for UBig::bitand_assign
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < i128 > for UBig::bitor -> r
@rewrite `self . bitor_signed ( rhs )` => `ubig_bitor_signed_i128(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < i128 > for & UBig::bitor -> r
@rewrite `self . bitor_ref_signed ( rhs )` => `ubig_bitor_ref_signed_i128(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & i128 > for UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & i128 > for & 'a UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < UBig > for i128::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for i128::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < UBig > for & 'a i128::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for & 'b i128::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < i128 > for UBig::bitor_assign
@rewrite `self . bitor_assign_signed ( rhs )` => `ubig_bitor_assign_signed_i128(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & i128 > for UBig::bitor_assign
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < i128 > for UBig::bitxor -> r
@rewrite `self . bitxor_signed ( rhs )` => `ubig_bitxor_signed_i128(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < i128 > for & UBig::bitxor -> r
@rewrite `self . bitxor_ref_signed ( rhs )` => `ubig_bitxor_ref_signed_i128(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & i128 > for UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & i128 > for & 'a UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < UBig > for i128::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for i128::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < UBig > for & 'a i128::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for & 'b i128::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < i128 > for UBig::bitxor_assign
@rewrite `self . bitxor_assign_signed ( rhs )` => `ubig_bitxor_assign_signed_i128(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & i128 > for UBig::bitxor_assign
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < i128 > for UBig::and_not -> r
@rewrite `self . and_not_signed ( rhs )` => `ubig_and_not_signed_i128(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < i128 > for & UBig::and_not -> r
@rewrite `self . and_not_ref_signed ( rhs )` => `ubig_and_not_ref_signed_i128(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & i128 > for UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & i128 > for & 'a UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < isize > for UBig::bitand -> r
@rewrite `self . bitand_signed ( rhs )` => `ubig_bitand_signed_isize(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < isize > for & UBig::bitand -> r
@rewrite `self . bitand_ref_signed ( rhs )` => `ubig_bitand_ref_signed_isize(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < & isize > for UBig::bitand -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & isize > for & 'a UBig::bitand -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < UBig > for isize::bitand -> r
@pre rhs.wf()
@panics ((self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for isize::bitand -> r
@pre rhs.wf()
@panics ((self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < UBig > for & 'a isize::bitand -> r
@pre rhs.wf()
@panics ((*self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a UBig > for & 'b isize::bitand -> r
@pre rhs.wf()
@panics ((*self as int) < 0 && (rhs.v() as int) < 0)
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < isize > for UBig::bitand_assign
@rewrite `self . bitand_assign_signed ( rhs )` => `ubig_bitand_assign_signed_isize(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & isize > for UBig::bitand_assign
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) < 0)
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < isize > for UBig::bitor -> r
@rewrite `self . bitor_signed ( rhs )` => `ubig_bitor_signed_isize(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < isize > for & UBig::bitor -> r
@rewrite `self . bitor_ref_signed ( rhs )` => `ubig_bitor_ref_signed_isize(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & isize > for UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & isize > for & 'a UBig::bitor -> r
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < UBig > for isize::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for isize::bitor -> r
@pre rhs.wf()
@panics ((self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < UBig > for & 'a isize::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a UBig > for & 'b isize::bitor -> r
@pre rhs.wf()
@panics ((*self as int) < 0 || (rhs.v() as int) < 0)
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < isize > for UBig::bitor_assign
@rewrite `self . bitor_assign_signed ( rhs )` => `ubig_bitor_assign_signed_isize(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 || (rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & isize > for UBig::bitor_assign
@pre self.wf()
@panics ((self.v() as int) < 0 || (*rhs as int) < 0)
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < isize > for UBig::bitxor -> r
@rewrite `self . bitxor_signed ( rhs )` => `ubig_bitxor_signed_isize(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < isize > for & UBig::bitxor -> r
@rewrite `self . bitxor_ref_signed ( rhs )` => `ubig_bitxor_ref_signed_isize(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & isize > for UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & isize > for & 'a UBig::bitxor -> r
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < UBig > for isize::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for isize::bitxor -> r
@pre rhs.wf()
@panics (((self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < UBig > for & 'a isize::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a UBig > for & 'b isize::bitxor -> r
@pre rhs.wf()
@panics (((*self as int) < 0) != ((rhs.v() as int) < 0))
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < isize > for UBig::bitxor_assign
@rewrite `self . bitxor_assign_signed ( rhs )` => `ubig_bitxor_assign_signed_isize(self, rhs)`
@pre self.wf()
@panics (((self.v() as int) < 0) != ((rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & isize > for UBig::bitxor_assign
@pre self.wf()
@panics (((self.v() as int) < 0) != ((*rhs as int) < 0))
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < isize > for UBig::and_not -> r
@rewrite `self . and_not_signed ( rhs )` => `ubig_and_not_signed_isize(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < isize > for & UBig::and_not -> r
@rewrite `self . and_not_ref_signed ( rhs )` => `ubig_and_not_ref_signed_isize(self, rhs)`
@pre self.wf()
@panics ((self.v() as int) < 0 && (rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & isize > for UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & isize > for & 'a UBig::and_not -> r
@pre self.wf()
@panics ((self.v() as int) < 0 && (*rhs as int) >= 0)
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < u8 > for IBig::bitand -> r
@rewrite `self . bitand_unsigned ( rhs )` => `ibig_bitand_unsigned_u8(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < u8 > for & IBig::bitand -> r
@rewrite `self . bitand_ref_unsigned ( rhs )` => `ibig_bitand_ref_unsigned_u8(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < u16 > for IBig::bitand -> r
@rewrite `self . bitand_unsigned ( rhs )` => `ibig_bitand_unsigned_u16(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < u16 > for & IBig::bitand -> r
@rewrite `self . bitand_ref_unsigned ( rhs )` => `ibig_bitand_ref_unsigned_u16(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < u32 > for IBig::bitand -> r
@rewrite `self . bitand_unsigned ( rhs )` => `ibig_bitand_unsigned_u32(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < u32 > for & IBig::bitand -> r
@rewrite `self . bitand_ref_unsigned ( rhs )` => `ibig_bitand_ref_unsigned_u32(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < u64 > for IBig::bitand -> r
@rewrite `self . bitand_unsigned ( rhs )` => `ibig_bitand_unsigned_u64(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < u64 > for & IBig::bitand -> r
@rewrite `self . bitand_ref_unsigned ( rhs )` => `ibig_bitand_ref_unsigned_u64(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < u128 > for IBig::bitand -> r
@rewrite `self . bitand_unsigned ( rhs )` => `ibig_bitand_unsigned_u128(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < u128 > for & IBig::bitand -> r
@rewrite `self . bitand_ref_unsigned ( rhs )` => `ibig_bitand_ref_unsigned_u128(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < usize > for IBig::bitand -> r
@rewrite `self . bitand_unsigned ( rhs )` => `ibig_bitand_unsigned_usize(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < usize > for & IBig::bitand -> r
@rewrite `self . bitand_ref_unsigned ( rhs )` => `ibig_bitand_ref_unsigned_usize(self, rhs)`
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (rhs as int))
@fn BitAnd < i8 > for IBig::bitand -> r
@rewrite `self . bitand_signed ( rhs )` => `ibig_bitand_signed_i8(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < i8 > for & IBig::bitand -> r
@rewrite `self . bitand_ref_signed ( rhs )` => `ibig_bitand_ref_signed_i8(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < i16 > for IBig::bitand -> r
@rewrite `self . bitand_signed ( rhs )` => `ibig_bitand_signed_i16(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < i16 > for & IBig::bitand -> r
@rewrite `self . bitand_ref_signed ( rhs )` => `ibig_bitand_ref_signed_i16(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < i32 > for IBig::bitand -> r
@rewrite `self . bitand_signed ( rhs )` => `ibig_bitand_signed_i32(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < i32 > for & IBig::bitand -> r
@rewrite `self . bitand_ref_signed ( rhs )` => `ibig_bitand_ref_signed_i32(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < i64 > for IBig::bitand -> r
@rewrite `self . bitand_signed ( rhs )` => `ibig_bitand_signed_i64(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < i64 > for & IBig::bitand -> r
@rewrite `self . bitand_ref_signed ( rhs )` => `ibig_bitand_ref_signed_i64(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < i128 > for IBig::bitand -> r
@rewrite `self . bitand_signed ( rhs )` => `ibig_bitand_signed_i128(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < i128 > for & IBig::bitand -> r
@rewrite `self . bitand_ref_signed ( rhs )` => `ibig_bitand_ref_signed_i128(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < isize > for IBig::bitand -> r
@rewrite `self . bitand_signed ( rhs )` => `ibig_bitand_signed_isize(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < isize > for & IBig::bitand -> r
@rewrite `self . bitand_ref_signed ( rhs )` => `ibig_bitand_ref_signed_isize(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (rhs as int))
@fn BitAnd < & u8 > for IBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & u8 > for & 'a IBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < IBig > for u8::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for u8::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < IBig > for & 'a u8::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for & 'b u8::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < u8 > for IBig::bitand_assign
@rewrite `self . bitand_assign_primitive ( rhs )` => `ibig_bitand_assign_primitive_u8(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & u8 > for IBig::bitand_assign
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < u8 > for IBig::bitor -> r
@rewrite `self . bitor_primitive ( rhs )` => `ibig_bitor_primitive_u8(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < u8 > for & IBig::bitor -> r
@rewrite `self . bitor_ref_primitive ( rhs )` => `ibig_bitor_ref_primitive_u8(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & u8 > for IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & u8 > for & 'a IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < IBig > for u8::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for u8::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < IBig > for & 'a u8::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for & 'b u8::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < u8 > for IBig::bitor_assign
@rewrite `self . bitor_assign_primitive ( rhs )` => `ibig_bitor_assign_primitive_u8(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & u8 > for IBig::bitor_assign
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < u8 > for IBig::bitxor -> r
@rewrite `self . bitxor_primitive ( rhs )` => `ibig_bitxor_primitive_u8(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < u8 > for & IBig::bitxor -> r
@rewrite `self . bitxor_ref_primitive ( rhs )` => `ibig_bitxor_ref_primitive_u8(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & u8 > for IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & u8 > for & 'a IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < IBig > for u8::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for u8::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < IBig > for & 'a u8::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for & 'b u8::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < u8 > for IBig::bitxor_assign
@rewrite `self . bitxor_assign_primitive ( rhs )` => `ibig_bitxor_assign_primitive_u8(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & u8 > for IBig::bitxor_assign
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < u8 > for IBig::and_not -> r
@rewrite `self . and_not_primitive ( rhs )` => `ibig_and_not_primitive_u8(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < u8 > for & IBig::and_not -> r
@rewrite `self . and_not_ref_primitive ( rhs )` => `ibig_and_not_ref_primitive_u8(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & u8 > for IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & u8 > for & 'a IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & u16 > for IBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & u16 > for & 'a IBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < IBig > for u16::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for u16::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < IBig > for & 'a u16::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for & 'b u16::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < u16 > for IBig::bitand_assign
@rewrite `self . bitand_assign_primitive ( rhs )` => `ibig_bitand_assign_primitive_u16(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & u16 > for IBig::bitand_assign
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < u16 > for IBig::bitor -> r
@rewrite `self . bitor_primitive ( rhs )` => `ibig_bitor_primitive_u16(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < u16 > for & IBig::bitor -> r
@rewrite `self . bitor_ref_primitive ( rhs )` => `ibig_bitor_ref_primitive_u16(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & u16 > for IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & u16 > for & 'a IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < IBig > for u16::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for u16::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < IBig > for & 'a u16::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for & 'b u16::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < u16 > for IBig::bitor_assign
@rewrite `self . bitor_assign_primitive ( rhs )` => `ibig_bitor_assign_primitive_u16(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & u16 > for IBig::bitor_assign
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < u16 > for IBig::bitxor -> r
@rewrite `self . bitxor_primitive ( rhs )` => `ibig_bitxor_primitive_u16(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < u16 > for & IBig::bitxor -> r
@rewrite `self . bitxor_ref_primitive ( rhs )` => `ibig_bitxor_ref_primitive_u16(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & u16 > for IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & u16 > for & 'a IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < IBig > for u16::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for u16::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < IBig > for & 'a u16::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for & 'b u16::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < u16 > for IBig::bitxor_assign
@rewrite `self . bitxor_assign_primitive ( rhs )` => `ibig_bitxor_assign_primitive_u16(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & u16 > for IBig::bitxor_assign
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < u16 > for IBig::and_not -> r
@rewrite `self . and_not_primitive ( rhs )` => `ibig_and_not_primitive_u16(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < u16 > for & IBig::and_not -> r
@rewrite `self . and_not_ref_primitive ( rhs )` => `ibig_and_not_ref_primitive_u16(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & u16 > for IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & u16 > for & 'a IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & u32 > for IBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & u32 > for & 'a IBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < IBig > for u32::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for u32::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < IBig > for & 'a u32::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for & 'b u32::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < u32 > for IBig::bitand_assign
@rewrite `self . bitand_assign_primitive ( rhs )` => `ibig_bitand_assign_primitive_u32(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & u32 > for IBig::bitand_assign
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < u32 > for IBig::bitor -> r
@rewrite `self . bitor_primitive ( rhs )` => `ibig_bitor_primitive_u32(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < u32 > for & IBig::bitor -> r
@rewrite `self . bitor_ref_primitive ( rhs )` => `ibig_bitor_ref_primitive_u32(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & u32 > for IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & u32 > for & 'a IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < IBig > for u32::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for u32::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < IBig > for & 'a u32::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for & 'b u32::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < u32 > for IBig::bitor_assign
@rewrite `self . bitor_assign_primitive ( rhs )` => `ibig_bitor_assign_primitive_u32(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & u32 > for IBig::bitor_assign
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < u32 > for IBig::bitxor -> r
@rewrite `self . bitxor_primitive ( rhs )` => `ibig_bitxor_primitive_u32(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < u32 > for & IBig::bitxor -> r
@rewrite `self . bitxor_ref_primitive ( rhs )` => `ibig_bitxor_ref_primitive_u32(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & u32 > for IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & u32 > for & 'a IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < IBig > for u32::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for u32::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < IBig > for & 'a u32::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for & 'b u32::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < u32 > for IBig::bitxor_assign
@rewrite `self . bitxor_assign_primitive ( rhs )` => `ibig_bitxor_assign_primitive_u32(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & u32 > for IBig::bitxor_assign
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < u32 > for IBig::and_not -> r
@rewrite `self . and_not_primitive ( rhs )` => `ibig_and_not_primitive_u32(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < u32 > for & IBig::and_not -> r
@rewrite `self . and_not_ref_primitive ( rhs )` => `ibig_and_not_ref_primitive_u32(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & u32 > for IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & u32 > for & 'a IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & u64 > for IBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & u64 > for & 'a IBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < IBig > for u64::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for u64::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < IBig > for & 'a u64::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for & 'b u64::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < u64 > for IBig::bitand_assign
@rewrite `self . bitand_assign_primitive ( rhs )` => `ibig_bitand_assign_primitive_u64(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & u64 > for IBig::bitand_assign
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < u64 > for IBig::bitor -> r
@rewrite `self . bitor_primitive ( rhs )` => `ibig_bitor_primitive_u64(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < u64 > for & IBig::bitor -> r
@rewrite `self . bitor_ref_primitive ( rhs )` => `ibig_bitor_ref_primitive_u64(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & u64 > for IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & u64 > for & 'a IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < IBig > for u64::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for u64::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < IBig > for & 'a u64::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for & 'b u64::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < u64 > for IBig::bitor_assign
@rewrite `self . bitor_assign_primitive ( rhs )` => `ibig_bitor_assign_primitive_u64(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & u64 > for IBig::bitor_assign
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < u64 > for IBig::bitxor -> r
@rewrite `self . bitxor_primitive ( rhs )` => `ibig_bitxor_primitive_u64(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < u64 > for & IBig::bitxor -> r
@rewrite `self . bitxor_ref_primitive ( rhs )` => `ibig_bitxor_ref_primitive_u64(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & u64 > for IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & u64 > for & 'a IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < IBig > for u64::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for u64::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < IBig > for & 'a u64::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for & 'b u64::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < u64 > for IBig::bitxor_assign
@rewrite `self . bitxor_assign_primitive ( rhs )` => `ibig_bitxor_assign_primitive_u64(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & u64 > for IBig::bitxor_assign
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < u64 > for IBig::and_not -> r
@rewrite `self . and_not_primitive ( rhs )` => `ibig_and_not_primitive_u64(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < u64 > for & IBig::and_not -> r
@rewrite `self . and_not_ref_primitive ( rhs )` => `ibig_and_not_ref_primitive_u64(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & u64 > for IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & u64 > for & 'a IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & u128 > for IBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & u128 > for & 'a IBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < IBig > for u128::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for u128::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < IBig > for & 'a u128::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for & 'b u128::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < u128 > for IBig::bitand_assign
@rewrite `self . bitand_assign_primitive ( rhs )` => `ibig_bitand_assign_primitive_u128(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & u128 > for IBig::bitand_assign
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < u128 > for IBig::bitor -> r
@rewrite `self . bitor_primitive ( rhs )` => `ibig_bitor_primitive_u128(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < u128 > for & IBig::bitor -> r
@rewrite `self . bitor_ref_primitive ( rhs )` => `ibig_bitor_ref_primitive_u128(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & u128 > for IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & u128 > for & 'a IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < IBig > for u128::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for u128::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < IBig > for & 'a u128::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for & 'b u128::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < u128 > for IBig::bitor_assign
@rewrite `self . bitor_assign_primitive ( rhs )` => `ibig_bitor_assign_primitive_u128(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & u128 > for IBig::bitor_assign
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < u128 > for IBig::bitxor -> r
@rewrite `self . bitxor_primitive ( rhs )` => `ibig_bitxor_primitive_u128(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < u128 > for & IBig::bitxor -> r
@rewrite `self . bitxor_ref_primitive ( rhs )` => `ibig_bitxor_ref_primitive_u128(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & u128 > for IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & u128 > for & 'a IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < IBig > for u128::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for u128::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < IBig > for & 'a u128::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for & 'b u128::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < u128 > for IBig::bitxor_assign
@rewrite `self . bitxor_assign_primitive ( rhs )` => `ibig_bitxor_assign_primitive_u128(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & u128 > for IBig::bitxor_assign
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < u128 > for IBig::and_not -> r
@rewrite `self . and_not_primitive ( rhs )` => `ibig_and_not_primitive_u128(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < u128 > for & IBig::and_not -> r
@rewrite `self . and_not_ref_primitive ( rhs )` => `ibig_and_not_ref_primitive_u128(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & u128 > for IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & u128 > for & 'a IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & usize > for IBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & usize > for & 'a IBig::bitand -> r
@pre self.wf()
    ensures is_and((r as int), (self.v() as int), (*rhs as int))
@fn BitAnd < IBig > for usize::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for usize::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (self as int), (rhs.v() as int))
@fn BitAnd < IBig > for & 'a usize::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for & 'b usize::bitand -> r
@pre rhs.wf()
    ensures is_and((r as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < usize > for IBig::bitand_assign
@rewrite `self . bitand_assign_primitive ( rhs )` => `ibig_bitand_assign_primitive_usize(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & usize > for IBig::bitand_assign
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < usize > for IBig::bitor -> r
@rewrite `self . bitor_primitive ( rhs )` => `ibig_bitor_primitive_usize(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < usize > for & IBig::bitor -> r
@rewrite `self . bitor_ref_primitive ( rhs )` => `ibig_bitor_ref_primitive_usize(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & usize > for IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & usize > for & 'a IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < IBig > for usize::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for usize::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < IBig > for & 'a usize::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for & 'b usize::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < usize > for IBig::bitor_assign
@rewrite `self . bitor_assign_primitive ( rhs )` => `ibig_bitor_assign_primitive_usize(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & usize > for IBig::bitor_assign
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < usize > for IBig::bitxor -> r
@rewrite `self . bitxor_primitive ( rhs )` => `ibig_bitxor_primitive_usize(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < usize > for & IBig::bitxor -> r
@rewrite `self . bitxor_ref_primitive ( rhs )` => `ibig_bitxor_ref_primitive_usize(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & usize > for IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & usize > for & 'a IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < IBig > for usize::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for usize::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < IBig > for & 'a usize::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for & 'b usize::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < usize > for IBig::bitxor_assign
@rewrite `self . bitxor_assign_primitive ( rhs )` => `ibig_bitxor_assign_primitive_usize(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & usize > for IBig::bitxor_assign
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < usize > for IBig::and_not -> r
@rewrite `self . and_not_primitive ( rhs )` => `ibig_and_not_primitive_usize(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < usize > for & IBig::and_not -> r
@rewrite `self . and_not_ref_primitive ( rhs )` => `ibig_and_not_ref_primitive_usize(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & usize > for IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & usize > for & 'a IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & i8 > for IBig::bitand -> r
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & i8 > for & 'a IBig::bitand -> r
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < IBig > for i8::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for i8::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < IBig > for & 'a i8::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for & 'b i8::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < i8 > for IBig::bitand_assign
@rewrite `self . bitand_assign_primitive ( rhs )` => `ibig_bitand_assign_primitive_i8(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & i8 > for IBig::bitand_assign
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < i8 > for IBig::bitor -> r
@rewrite `self . bitor_primitive ( rhs )` => `ibig_bitor_primitive_i8(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < i8 > for & IBig::bitor -> r
@rewrite `self . bitor_ref_primitive ( rhs )` => `ibig_bitor_ref_primitive_i8(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & i8 > for IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & i8 > for & 'a IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < IBig > for i8::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for i8::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < IBig > for & 'a i8::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for & 'b i8::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < i8 > for IBig::bitor_assign
@rewrite `self . bitor_assign_primitive ( rhs )` => `ibig_bitor_assign_primitive_i8(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & i8 > for IBig::bitor_assign
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < i8 > for IBig::bitxor -> r
@rewrite `self . bitxor_primitive ( rhs )` => `ibig_bitxor_primitive_i8(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < i8 > for & IBig::bitxor -> r
@rewrite `self . bitxor_ref_primitive ( rhs )` => `ibig_bitxor_ref_primitive_i8(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & i8 > for IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & i8 > for & 'a IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < IBig > for i8::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for i8::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < IBig > for & 'a i8::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for & 'b i8::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < i8 > for IBig::bitxor_assign
@rewrite `self . bitxor_assign_primitive ( rhs )` => `ibig_bitxor_assign_primitive_i8(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & i8 > for IBig::bitxor_assign
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < i8 > for IBig::and_not -> r
@rewrite `self . and_not_primitive ( rhs )` => `ibig_and_not_primitive_i8(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < i8 > for & IBig::and_not -> r
@rewrite `self . and_not_ref_primitive ( rhs )` => `ibig_and_not_ref_primitive_i8(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & i8 > for IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & i8 > for & 'a IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & i16 > for IBig::bitand -> r
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & i16 > for & 'a IBig::bitand -> r
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < IBig > for i16::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for i16::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < IBig > for & 'a i16::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for & 'b i16::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < i16 > for IBig::bitand_assign
@rewrite `self . bitand_assign_primitive ( rhs )` => `ibig_bitand_assign_primitive_i16(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & i16 > for IBig::bitand_assign
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < i16 > for IBig::bitor -> r
@rewrite `self . bitor_primitive ( rhs )` => `ibig_bitor_primitive_i16(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < i16 > for & IBig::bitor -> r
@rewrite `self . bitor_ref_primitive ( rhs )` => `ibig_bitor_ref_primitive_i16(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & i16 > for IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & i16 > for & 'a IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < IBig > for i16::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for i16::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < IBig > for & 'a i16::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for & 'b i16::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < i16 > for IBig::bitor_assign
@rewrite `self . bitor_assign_primitive ( rhs )` => `ibig_bitor_assign_primitive_i16(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & i16 > for IBig::bitor_assign
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < i16 > for IBig::bitxor -> r
@rewrite `self . bitxor_primitive ( rhs )` => `ibig_bitxor_primitive_i16(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < i16 > for & IBig::bitxor -> r
@rewrite `self . bitxor_ref_primitive ( rhs )` => `ibig_bitxor_ref_primitive_i16(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & i16 > for IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & i16 > for & 'a IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < IBig > for i16::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for i16::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < IBig > for & 'a i16::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for & 'b i16::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < i16 > for IBig::bitxor_assign
@rewrite `self . bitxor_assign_primitive ( rhs )` => `ibig_bitxor_assign_primitive_i16(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & i16 > for IBig::bitxor_assign
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < i16 > for IBig::and_not -> r
@rewrite `self . and_not_primitive ( rhs )` => `ibig_and_not_primitive_i16(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < i16 > for & IBig::and_not -> r
@rewrite `self . and_not_ref_primitive ( rhs )` => `ibig_and_not_ref_primitive_i16(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & i16 > for IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & i16 > for & 'a IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & i32 > for IBig::bitand -> r
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & i32 > for & 'a IBig::bitand -> r
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < IBig > for i32::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for i32::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < IBig > for & 'a i32::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for & 'b i32::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < i32 > for IBig::bitand_assign
@rewrite `self . bitand_assign_primitive ( rhs )` => `ibig_bitand_assign_primitive_i32(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & i32 > for IBig::bitand_assign
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < i32 > for IBig::bitor -> r
@rewrite `self . bitor_primitive ( rhs )` => `ibig_bitor_primitive_i32(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < i32 > for & IBig::bitor -> r
@rewrite `self . bitor_ref_primitive ( rhs )` => `ibig_bitor_ref_primitive_i32(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & i32 > for IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & i32 > for & 'a IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < IBig > for i32::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for i32::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < IBig > for & 'a i32::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for & 'b i32::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < i32 > for IBig::bitor_assign
@rewrite `self . bitor_assign_primitive ( rhs )` => `ibig_bitor_assign_primitive_i32(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & i32 > for IBig::bitor_assign
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < i32 > for IBig::bitxor -> r
@rewrite `self . bitxor_primitive ( rhs )` => `ibig_bitxor_primitive_i32(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < i32 > for & IBig::bitxor -> r
@rewrite `self . bitxor_ref_primitive ( rhs )` => `ibig_bitxor_ref_primitive_i32(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & i32 > for IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & i32 > for & 'a IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < IBig > for i32::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for i32::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < IBig > for & 'a i32::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for & 'b i32::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < i32 > for IBig::bitxor_assign
@rewrite `self . bitxor_assign_primitive ( rhs )` => `ibig_bitxor_assign_primitive_i32(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & i32 > for IBig::bitxor_assign
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < i32 > for IBig::and_not -> r
@rewrite `self . and_not_primitive ( rhs )` => `ibig_and_not_primitive_i32(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < i32 > for & IBig::and_not -> r
@rewrite `self . and_not_ref_primitive ( rhs )` => `ibig_and_not_ref_primitive_i32(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & i32 > for IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & i32 > for & 'a IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & i64 > for IBig::bitand -> r
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & i64 > for & 'a IBig::bitand -> r
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < IBig > for i64::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for i64::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < IBig > for & 'a i64::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for & 'b i64::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < i64 > for IBig::bitand_assign
@rewrite `self . bitand_assign_primitive ( rhs )` => `ibig_bitand_assign_primitive_i64(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & i64 > for IBig::bitand_assign
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < i64 > for IBig::bitor -> r
@rewrite `self . bitor_primitive ( rhs )` => `ibig_bitor_primitive_i64(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < i64 > for & IBig::bitor -> r
@rewrite `self . bitor_ref_primitive ( rhs )` => `ibig_bitor_ref_primitive_i64(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & i64 > for IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & i64 > for & 'a IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < IBig > for i64::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for i64::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < IBig > for & 'a i64::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for & 'b i64::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < i64 > for IBig::bitor_assign
@rewrite `self . bitor_assign_primitive ( rhs )` => `ibig_bitor_assign_primitive_i64(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & i64 > for IBig::bitor_assign
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < i64 > for IBig::bitxor -> r
@rewrite `self . bitxor_primitive ( rhs )` => `ibig_bitxor_primitive_i64(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < i64 > for & IBig::bitxor -> r
@rewrite `self . bitxor_ref_primitive ( rhs )` => `ibig_bitxor_ref_primitive_i64(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & i64 > for IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & i64 > for & 'a IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < IBig > for i64::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for i64::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < IBig > for & 'a i64::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for & 'b i64::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < i64 > for IBig::bitxor_assign
@rewrite `self . bitxor_assign_primitive ( rhs )` => `ibig_bitxor_assign_primitive_i64(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & i64 > for IBig::bitxor_assign
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < i64 > for IBig::and_not -> r
@rewrite `self . and_not_primitive ( rhs )` => `ibig_and_not_primitive_i64(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < i64 > for & IBig::and_not -> r
@rewrite `self . and_not_ref_primitive ( rhs )` => `ibig_and_not_ref_primitive_i64(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & i64 > for IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & i64 > for & 'a IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & i128 > for IBig::bitand -> r
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & i128 > for & 'a IBig::bitand -> r
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < IBig > for i128::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for i128::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < IBig > for & 'a i128::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for & 'b i128::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < i128 > for IBig::bitand_assign
@rewrite `self . bitand_assign_primitive ( rhs )` => `ibig_bitand_assign_primitive_i128(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & i128 > for IBig::bitand_assign
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < i128 > for IBig::bitor -> r
@rewrite `self . bitor_primitive ( rhs )` => `ibig_bitor_primitive_i128(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < i128 > for & IBig::bitor -> r
@rewrite `self . bitor_ref_primitive ( rhs )` => `ibig_bitor_ref_primitive_i128(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & i128 > for IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & i128 > for & 'a IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < IBig > for i128::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for i128::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < IBig > for & 'a i128::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for & 'b i128::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < i128 > for IBig::bitor_assign
@rewrite `self . bitor_assign_primitive ( rhs )` => `ibig_bitor_assign_primitive_i128(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & i128 > for IBig::bitor_assign
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < i128 > for IBig::bitxor -> r
@rewrite `self . bitxor_primitive ( rhs )` => `ibig_bitxor_primitive_i128(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < i128 > for & IBig::bitxor -> r
@rewrite `self . bitxor_ref_primitive ( rhs )` => `ibig_bitxor_ref_primitive_i128(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & i128 > for IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & i128 > for & 'a IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < IBig > for i128::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for i128::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < IBig > for & 'a i128::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for & 'b i128::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < i128 > for IBig::bitxor_assign
@rewrite `self . bitxor_assign_primitive ( rhs )` => `ibig_bitxor_assign_primitive_i128(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & i128 > for IBig::bitxor_assign
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < i128 > for IBig::and_not -> r
@rewrite `self . and_not_primitive ( rhs )` => `ibig_and_not_primitive_i128(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < i128 > for & IBig::and_not -> r
@rewrite `self . and_not_ref_primitive ( rhs )` => `ibig_and_not_ref_primitive_i128(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & i128 > for IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & i128 > for & 'a IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & isize > for IBig::bitand -> r
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < & isize > for & 'a IBig::bitand -> r
@pre self.wf()
    ensures r.wf(), is_and((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitAnd < IBig > for isize::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for isize::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (self as int), (rhs.v() as int))
@fn BitAnd < IBig > for & 'a isize::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAnd < & 'a IBig > for & 'b isize::bitand -> r
@pre rhs.wf()
    ensures r.wf(), is_and((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitAndAssign < isize > for IBig::bitand_assign
@rewrite `self . bitand_assign_primitive ( rhs )` => `ibig_bitand_assign_primitive_isize(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitAndAssign < & isize > for IBig::bitand_assign
@pre self.wf()
    ensures final(self).wf(), is_and((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitOr < isize > for IBig::bitor -> r
@rewrite `self . bitor_primitive ( rhs )` => `ibig_bitor_primitive_isize(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < isize > for & IBig::bitor -> r
@rewrite `self . bitor_ref_primitive ( rhs )` => `ibig_bitor_ref_primitive_isize(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (rhs as int))
@fn BitOr < & isize > for IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < & isize > for & 'a IBig::bitor -> r
@pre self.wf()
    ensures r.wf(), is_or((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitOr < IBig > for isize::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for isize::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (self as int), (rhs.v() as int))
@fn BitOr < IBig > for & 'a isize::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOr < & 'a IBig > for & 'b isize::bitor -> r
@pre rhs.wf()
    ensures r.wf(), is_or((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitOrAssign < isize > for IBig::bitor_assign
@rewrite `self . bitor_assign_primitive ( rhs )` => `ibig_bitor_assign_primitive_isize(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitOrAssign < & isize > for IBig::bitor_assign
@pre self.wf()
    ensures final(self).wf(), is_or((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn BitXor < isize > for IBig::bitxor -> r
@rewrite `self . bitxor_primitive ( rhs )` => `ibig_bitxor_primitive_isize(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < isize > for & IBig::bitxor -> r
@rewrite `self . bitxor_ref_primitive ( rhs )` => `ibig_bitxor_ref_primitive_isize(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (rhs as int))
@fn BitXor < & isize > for IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < & isize > for & 'a IBig::bitxor -> r
@pre self.wf()
    ensures r.wf(), is_xor((r.v() as int), (self.v() as int), (*rhs as int))
@fn BitXor < IBig > for isize::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for isize::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (self as int), (rhs.v() as int))
@fn BitXor < IBig > for & 'a isize::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXor < & 'a IBig > for & 'b isize::bitxor -> r
@pre rhs.wf()
    ensures r.wf(), is_xor((r.v() as int), (*self as int), (rhs.v() as int))
@fn BitXorAssign < isize > for IBig::bitxor_assign
@rewrite `self . bitxor_assign_primitive ( rhs )` => `ibig_bitxor_assign_primitive_isize(self, rhs)`
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (rhs as int))
@fn BitXorAssign < & isize > for IBig::bitxor_assign
@pre self.wf()
    ensures final(self).wf(), is_xor((final(self).v() as int), (old(self).v() as int), (*rhs as int))
@fn AndNot < isize > for IBig::and_not -> r
@rewrite `self . and_not_primitive ( rhs )` => `ibig_and_not_primitive_isize(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < isize > for & IBig::and_not -> r
@rewrite `self . and_not_ref_primitive ( rhs )` => `ibig_and_not_ref_primitive_isize(self, rhs)`
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (rhs as int))
@fn AndNot < & isize > for IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
@fn AndNot < & isize > for & 'a IBig::and_not -> r
@pre self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (self.v() as int), (*rhs as int))
