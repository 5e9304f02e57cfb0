@file add_ops.rs
@fn UBig::add_unsigned -> r
@mono T=u8 as ubig_add_unsigned_u8
@method2fn ubig_add_unsigned_u8 UBig
@rewrite `self + UBig :: from_unsigned ( rhs )` => `vp_self.add(crate::convert::ubig_from_unsigned_u8(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_ref_unsigned -> r
@mono T=u8 as ubig_add_ref_unsigned_u8
@method2fn ubig_add_ref_unsigned_u8 UBig
@rewrite `self + UBig :: from_unsigned ( rhs )` => `vp_self.add(crate::convert::ubig_from_unsigned_u8(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_assign_unsigned
@mono T=u8 as ubig_add_assign_unsigned_u8
@method2fn ubig_add_assign_unsigned_u8 UBig
@rewrite `* self += UBig :: from_unsigned ( rhs )` => `vp_self.add_assign(crate::convert::ubig_from_unsigned_u8(rhs))`
@panics (old(vp_self).v() as int) + (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn UBig::sub_unsigned -> r
@mono T=u8 as ubig_sub_unsigned_u8
@method2fn ubig_sub_unsigned_u8 UBig
@rewrite `self - UBig :: from_unsigned ( rhs )` => `vp_self.sub(crate::convert::ubig_from_unsigned_u8(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_ref_unsigned -> r
@mono T=u8 as ubig_sub_ref_unsigned_u8
@method2fn ubig_sub_ref_unsigned_u8 UBig
@rewrite `self - UBig :: from_unsigned ( rhs )` => `vp_self.sub(crate::convert::ubig_from_unsigned_u8(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_assign_unsigned
@mono T=u8 as ubig_sub_assign_unsigned_u8
@method2fn ubig_sub_assign_unsigned_u8 UBig
@rewrite `* self -= UBig :: from_unsigned ( rhs )` => `vp_self.sub_assign(crate::convert::ubig_from_unsigned_u8(rhs))`
@panics (old(vp_self).v() as int) - (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::add_primitive -> r
@mono T=u8 as ibig_add_primitive_u8
@method2fn ibig_add_primitive_u8 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_ref_primitive -> r
@mono T=u8 as ibig_add_ref_primitive_u8
@method2fn ibig_add_ref_primitive_u8 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_assign_primitive
@mono T=u8 as ibig_add_assign_primitive_u8
@method2fn ibig_add_assign_primitive_u8 IBig
@rewrite `* self += IBig :: from ( rhs )` => `vp_self.add_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn IBig::sub_primitive -> r
@mono T=u8 as ibig_sub_primitive_u8
@method2fn ibig_sub_primitive_u8 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_ref_primitive -> r
@mono T=u8 as ibig_sub_ref_primitive_u8
@method2fn ibig_sub_ref_primitive_u8 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_assign_primitive
@mono T=u8 as ibig_sub_assign_primitive_u8
@method2fn ibig_sub_assign_primitive_u8 IBig
@rewrite `* self -= IBig :: from ( rhs )` => `vp_self.sub_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::sub_from_primitive -> r
@mono T=u8 as ibig_sub_from_primitive_u8
@method2fn ibig_sub_from_primitive_u8 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn IBig::sub_ref_from_primitive -> r
@mono T=u8 as ibig_sub_ref_from_primitive_u8
@method2fn ibig_sub_ref_from_primitive_u8 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn UBig::add_unsigned -> r
@mono T=u16 as ubig_add_unsigned_u16
@method2fn ubig_add_unsigned_u16 UBig
@rewrite `self + UBig :: from_unsigned ( rhs )` => `vp_self.add(crate::convert::ubig_from_unsigned_u16(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_ref_unsigned -> r
@mono T=u16 as ubig_add_ref_unsigned_u16
@method2fn ubig_add_ref_unsigned_u16 UBig
@rewrite `self + UBig :: from_unsigned ( rhs )` => `vp_self.add(crate::convert::ubig_from_unsigned_u16(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_assign_unsigned
@mono T=u16 as ubig_add_assign_unsigned_u16
@method2fn ubig_add_assign_unsigned_u16 UBig
@rewrite `* self += UBig :: from_unsigned ( rhs )` => `vp_self.add_assign(crate::convert::ubig_from_unsigned_u16(rhs))`
@panics (old(vp_self).v() as int) + (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn UBig::sub_unsigned -> r
@mono T=u16 as ubig_sub_unsigned_u16
@method2fn ubig_sub_unsigned_u16 UBig
@rewrite `self - UBig :: from_unsigned ( rhs )` => `vp_self.sub(crate::convert::ubig_from_unsigned_u16(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_ref_unsigned -> r
@mono T=u16 as ubig_sub_ref_unsigned_u16
@method2fn ubig_sub_ref_unsigned_u16 UBig
@rewrite `self - UBig :: from_unsigned ( rhs )` => `vp_self.sub(crate::convert::ubig_from_unsigned_u16(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_assign_unsigned
@mono T=u16 as ubig_sub_assign_unsigned_u16
@method2fn ubig_sub_assign_unsigned_u16 UBig
@rewrite `* self -= UBig :: from_unsigned ( rhs )` => `vp_self.sub_assign(crate::convert::ubig_from_unsigned_u16(rhs))`
@panics (old(vp_self).v() as int) - (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::add_primitive -> r
@mono T=u16 as ibig_add_primitive_u16
@method2fn ibig_add_primitive_u16 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_ref_primitive -> r
@mono T=u16 as ibig_add_ref_primitive_u16
@method2fn ibig_add_ref_primitive_u16 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_assign_primitive
@mono T=u16 as ibig_add_assign_primitive_u16
@method2fn ibig_add_assign_primitive_u16 IBig
@rewrite `* self += IBig :: from ( rhs )` => `vp_self.add_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn IBig::sub_primitive -> r
@mono T=u16 as ibig_sub_primitive_u16
@method2fn ibig_sub_primitive_u16 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_ref_primitive -> r
@mono T=u16 as ibig_sub_ref_primitive_u16
@method2fn ibig_sub_ref_primitive_u16 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_assign_primitive
@mono T=u16 as ibig_sub_assign_primitive_u16
@method2fn ibig_sub_assign_primitive_u16 IBig
@rewrite `* self -= IBig :: from ( rhs )` => `vp_self.sub_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::sub_from_primitive -> r
@mono T=u16 as ibig_sub_from_primitive_u16
@method2fn ibig_sub_from_primitive_u16 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn IBig::sub_ref_from_primitive -> r
@mono T=u16 as ibig_sub_ref_from_primitive_u16
@method2fn ibig_sub_ref_from_primitive_u16 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn UBig::add_unsigned -> r
@mono T=u32 as ubig_add_unsigned_u32
@method2fn ubig_add_unsigned_u32 UBig
@rewrite `self + UBig :: from_unsigned ( rhs )` => `vp_self.add(crate::convert::ubig_from_unsigned_u32(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_ref_unsigned -> r
@mono T=u32 as ubig_add_ref_unsigned_u32
@method2fn ubig_add_ref_unsigned_u32 UBig
@rewrite `self + UBig :: from_unsigned ( rhs )` => `vp_self.add(crate::convert::ubig_from_unsigned_u32(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_assign_unsigned
@mono T=u32 as ubig_add_assign_unsigned_u32
@method2fn ubig_add_assign_unsigned_u32 UBig
@rewrite `* self += UBig :: from_unsigned ( rhs )` => `vp_self.add_assign(crate::convert::ubig_from_unsigned_u32(rhs))`
@panics (old(vp_self).v() as int) + (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn UBig::sub_unsigned -> r
@mono T=u32 as ubig_sub_unsigned_u32
@method2fn ubig_sub_unsigned_u32 UBig
@rewrite `self - UBig :: from_unsigned ( rhs )` => `vp_self.sub(crate::convert::ubig_from_unsigned_u32(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_ref_unsigned -> r
@mono T=u32 as ubig_sub_ref_unsigned_u32
@method2fn ubig_sub_ref_unsigned_u32 UBig
@rewrite `self - UBig :: from_unsigned ( rhs )` => `vp_self.sub(crate::convert::ubig_from_unsigned_u32(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_assign_unsigned
@mono T=u32 as ubig_sub_assign_unsigned_u32
@method2fn ubig_sub_assign_unsigned_u32 UBig
@rewrite `* self -= UBig :: from_unsigned ( rhs )` => `vp_self.sub_assign(crate::convert::ubig_from_unsigned_u32(rhs))`
@panics (old(vp_self).v() as int) - (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::add_primitive -> r
@mono T=u32 as ibig_add_primitive_u32
@method2fn ibig_add_primitive_u32 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_ref_primitive -> r
@mono T=u32 as ibig_add_ref_primitive_u32
@method2fn ibig_add_ref_primitive_u32 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_assign_primitive
@mono T=u32 as ibig_add_assign_primitive_u32
@method2fn ibig_add_assign_primitive_u32 IBig
@rewrite `* self += IBig :: from ( rhs )` => `vp_self.add_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn IBig::sub_primitive -> r
@mono T=u32 as ibig_sub_primitive_u32
@method2fn ibig_sub_primitive_u32 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_ref_primitive -> r
@mono T=u32 as ibig_sub_ref_primitive_u32
@method2fn ibig_sub_ref_primitive_u32 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_assign_primitive
@mono T=u32 as ibig_sub_assign_primitive_u32
@method2fn ibig_sub_assign_primitive_u32 IBig
@rewrite `* self -= IBig :: from ( rhs )` => `vp_self.sub_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::sub_from_primitive -> r
@mono T=u32 as ibig_sub_from_primitive_u32
@method2fn ibig_sub_from_primitive_u32 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn IBig::sub_ref_from_primitive -> r
@mono T=u32 as ibig_sub_ref_from_primitive_u32
@method2fn ibig_sub_ref_from_primitive_u32 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn UBig::add_unsigned -> r
@mono T=u64 as ubig_add_unsigned_u64
@method2fn ubig_add_unsigned_u64 UBig
@rewrite `self + UBig :: from_unsigned ( rhs )` => `vp_self.add(crate::convert::ubig_from_unsigned_u64(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_ref_unsigned -> r
@mono T=u64 as ubig_add_ref_unsigned_u64
@method2fn ubig_add_ref_unsigned_u64 UBig
@rewrite `self + UBig :: from_unsigned ( rhs )` => `vp_self.add(crate::convert::ubig_from_unsigned_u64(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_assign_unsigned
@mono T=u64 as ubig_add_assign_unsigned_u64
@method2fn ubig_add_assign_unsigned_u64 UBig
@rewrite `* self += UBig :: from_unsigned ( rhs )` => `vp_self.add_assign(crate::convert::ubig_from_unsigned_u64(rhs))`
@panics (old(vp_self).v() as int) + (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn UBig::sub_unsigned -> r
@mono T=u64 as ubig_sub_unsigned_u64
@method2fn ubig_sub_unsigned_u64 UBig
@rewrite `self - UBig :: from_unsigned ( rhs )` => `vp_self.sub(crate::convert::ubig_from_unsigned_u64(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_ref_unsigned -> r
@mono T=u64 as ubig_sub_ref_unsigned_u64
@method2fn ubig_sub_ref_unsigned_u64 UBig
@rewrite `self - UBig :: from_unsigned ( rhs )` => `vp_self.sub(crate::convert::ubig_from_unsigned_u64(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_assign_unsigned
@mono T=u64 as ubig_sub_assign_unsigned_u64
@method2fn ubig_sub_assign_unsigned_u64 UBig
@rewrite `* self -= UBig :: from_unsigned ( rhs )` => `vp_self.sub_assign(crate::convert::ubig_from_unsigned_u64(rhs))`
@panics (old(vp_self).v() as int) - (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::add_primitive -> r
@mono T=u64 as ibig_add_primitive_u64
@method2fn ibig_add_primitive_u64 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_ref_primitive -> r
@mono T=u64 as ibig_add_ref_primitive_u64
@method2fn ibig_add_ref_primitive_u64 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_assign_primitive
@mono T=u64 as ibig_add_assign_primitive_u64
@method2fn ibig_add_assign_primitive_u64 IBig
@rewrite `* self += IBig :: from ( rhs )` => `vp_self.add_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn IBig::sub_primitive -> r
@mono T=u64 as ibig_sub_primitive_u64
@method2fn ibig_sub_primitive_u64 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_ref_primitive -> r
@mono T=u64 as ibig_sub_ref_primitive_u64
@method2fn ibig_sub_ref_primitive_u64 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_assign_primitive
@mono T=u64 as ibig_sub_assign_primitive_u64
@method2fn ibig_sub_assign_primitive_u64 IBig
@rewrite `* self -= IBig :: from ( rhs )` => `vp_self.sub_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::sub_from_primitive -> r
@mono T=u64 as ibig_sub_from_primitive_u64
@method2fn ibig_sub_from_primitive_u64 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn IBig::sub_ref_from_primitive -> r
@mono T=u64 as ibig_sub_ref_from_primitive_u64
@method2fn ibig_sub_ref_from_primitive_u64 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn UBig::add_unsigned -> r
@mono T=u128 as ubig_add_unsigned_u128
@method2fn ubig_add_unsigned_u128 UBig
@rewrite `self + UBig :: from_unsigned ( rhs )` => `vp_self.add(crate::convert::ubig_from_unsigned_u128(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_ref_unsigned -> r
@mono T=u128 as ubig_add_ref_unsigned_u128
@method2fn ubig_add_ref_unsigned_u128 UBig
@rewrite `self + UBig :: from_unsigned ( rhs )` => `vp_self.add(crate::convert::ubig_from_unsigned_u128(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_assign_unsigned
@mono T=u128 as ubig_add_assign_unsigned_u128
@method2fn ubig_add_assign_unsigned_u128 UBig
@rewrite `* self += UBig :: from_unsigned ( rhs )` => `vp_self.add_assign(crate::convert::ubig_from_unsigned_u128(rhs))`
@panics (old(vp_self).v() as int) + (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn UBig::sub_unsigned -> r
@mono T=u128 as ubig_sub_unsigned_u128
@method2fn ubig_sub_unsigned_u128 UBig
@rewrite `self - UBig :: from_unsigned ( rhs )` => `vp_self.sub(crate::convert::ubig_from_unsigned_u128(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_ref_unsigned -> r
@mono T=u128 as ubig_sub_ref_unsigned_u128
@method2fn ubig_sub_ref_unsigned_u128 UBig
@rewrite `self - UBig :: from_unsigned ( rhs )` => `vp_self.sub(crate::convert::ubig_from_unsigned_u128(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_assign_unsigned
@mono T=u128 as ubig_sub_assign_unsigned_u128
@method2fn ubig_sub_assign_unsigned_u128 UBig
@rewrite `* self -= UBig :: from_unsigned ( rhs )` => `vp_self.sub_assign(crate::convert::ubig_from_unsigned_u128(rhs))`
@panics (old(vp_self).v() as int) - (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::add_primitive -> r
@mono T=u128 as ibig_add_primitive_u128
@method2fn ibig_add_primitive_u128 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_ref_primitive -> r
@mono T=u128 as ibig_add_ref_primitive_u128
@method2fn ibig_add_ref_primitive_u128 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_assign_primitive
@mono T=u128 as ibig_add_assign_primitive_u128
@method2fn ibig_add_assign_primitive_u128 IBig
@rewrite `* self += IBig :: from ( rhs )` => `vp_self.add_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn IBig::sub_primitive -> r
@mono T=u128 as ibig_sub_primitive_u128
@method2fn ibig_sub_primitive_u128 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_ref_primitive -> r
@mono T=u128 as ibig_sub_ref_primitive_u128
@method2fn ibig_sub_ref_primitive_u128 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_assign_primitive
@mono T=u128 as ibig_sub_assign_primitive_u128
@method2fn ibig_sub_assign_primitive_u128 IBig
@rewrite `* self -= IBig :: from ( rhs )` => `vp_self.sub_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::sub_from_primitive -> r
@mono T=u128 as ibig_sub_from_primitive_u128
@method2fn ibig_sub_from_primitive_u128 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn IBig::sub_ref_from_primitive -> r
@mono T=u128 as ibig_sub_ref_from_primitive_u128
@method2fn ibig_sub_ref_from_primitive_u128 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn UBig::add_unsigned -> r
@mono T=usize as ubig_add_unsigned_usize
@method2fn ubig_add_unsigned_usize UBig
@rewrite `self + UBig :: from_unsigned ( rhs )` => `vp_self.add(crate::convert::ubig_from_unsigned_usize(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_ref_unsigned -> r
@mono T=usize as ubig_add_ref_unsigned_usize
@method2fn ubig_add_ref_unsigned_usize UBig
@rewrite `self + UBig :: from_unsigned ( rhs )` => `vp_self.add(crate::convert::ubig_from_unsigned_usize(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_assign_unsigned
@mono T=usize as ubig_add_assign_unsigned_usize
@method2fn ubig_add_assign_unsigned_usize UBig
@rewrite `* self += UBig :: from_unsigned ( rhs )` => `vp_self.add_assign(crate::convert::ubig_from_unsigned_usize(rhs))`
@panics (old(vp_self).v() as int) + (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn UBig::sub_unsigned -> r
@mono T=usize as ubig_sub_unsigned_usize
@method2fn ubig_sub_unsigned_usize UBig
@rewrite `self - UBig :: from_unsigned ( rhs )` => `vp_self.sub(crate::convert::ubig_from_unsigned_usize(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_ref_unsigned -> r
@mono T=usize as ubig_sub_ref_unsigned_usize
@method2fn ubig_sub_ref_unsigned_usize UBig
@rewrite `self - UBig :: from_unsigned ( rhs )` => `vp_self.sub(crate::convert::ubig_from_unsigned_usize(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_assign_unsigned
@mono T=usize as ubig_sub_assign_unsigned_usize
@method2fn ubig_sub_assign_unsigned_usize UBig
@rewrite `* self -= UBig :: from_unsigned ( rhs )` => `vp_self.sub_assign(crate::convert::ubig_from_unsigned_usize(rhs))`
@panics (old(vp_self).v() as int) - (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::add_primitive -> r
@mono T=usize as ibig_add_primitive_usize
@method2fn ibig_add_primitive_usize IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_ref_primitive -> r
@mono T=usize as ibig_add_ref_primitive_usize
@method2fn ibig_add_ref_primitive_usize IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_assign_primitive
@mono T=usize as ibig_add_assign_primitive_usize
@method2fn ibig_add_assign_primitive_usize IBig
@rewrite `* self += IBig :: from ( rhs )` => `vp_self.add_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn IBig::sub_primitive -> r
@mono T=usize as ibig_sub_primitive_usize
@method2fn ibig_sub_primitive_usize IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_ref_primitive -> r
@mono T=usize as ibig_sub_ref_primitive_usize
@method2fn ibig_sub_ref_primitive_usize IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_assign_primitive
@mono T=usize as ibig_sub_assign_primitive_usize
@method2fn ibig_sub_assign_primitive_usize IBig
@rewrite `* self -= IBig :: from ( rhs )` => `vp_self.sub_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::sub_from_primitive -> r
@mono T=usize as ibig_sub_from_primitive_usize
@method2fn ibig_sub_from_primitive_usize IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn IBig::sub_ref_from_primitive -> r
@mono T=usize as ibig_sub_ref_from_primitive_usize
@method2fn ibig_sub_ref_from_primitive_usize IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn UBig::add_signed -> r
@mono T=i8 as ubig_add_signed_i8
@method2fn ubig_add_signed_i8 UBig
@rewrite `IBig :: from ( self ) + IBig :: from_signed ( rhs )` => `IBig::from(vp_self).add(crate::convert::ibig_from_signed_i8(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_ref_signed -> r
@mono T=i8 as ubig_add_ref_signed_i8
@method2fn ubig_add_ref_signed_i8 UBig
@rewrite `IBig :: from ( self ) + IBig :: from_signed ( rhs )` => `IBig::from(vp_self).add(crate::convert::ibig_from_signed_i8(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_assign_signed
@mono T=i8 as ubig_add_assign_signed_i8
@method2fn ubig_add_assign_signed_i8 UBig
@rewrite `mem :: take ( self ) . add_signed ( rhs )` => `ubig_add_signed_i8(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) + (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn UBig::sub_signed -> r
@mono T=i8 as ubig_sub_signed_i8
@method2fn ubig_sub_signed_i8 UBig
@rewrite `IBig :: from ( self ) - IBig :: from_signed ( rhs )` => `IBig::from(vp_self).sub(crate::convert::ibig_from_signed_i8(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_ref_signed -> r
@mono T=i8 as ubig_sub_ref_signed_i8
@method2fn ubig_sub_ref_signed_i8 UBig
@rewrite `IBig :: from ( self ) - IBig :: from_signed ( rhs )` => `IBig::from(vp_self).sub(crate::convert::ibig_from_signed_i8(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_assign_signed
@mono T=i8 as ubig_sub_assign_signed_i8
@method2fn ubig_sub_assign_signed_i8 UBig
@rewrite `mem :: take ( self ) . sub_signed ( rhs )` => `ubig_sub_signed_i8(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) - (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::add_primitive -> r
@mono T=i8 as ibig_add_primitive_i8
@method2fn ibig_add_primitive_i8 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_ref_primitive -> r
@mono T=i8 as ibig_add_ref_primitive_i8
@method2fn ibig_add_ref_primitive_i8 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_assign_primitive
@mono T=i8 as ibig_add_assign_primitive_i8
@method2fn ibig_add_assign_primitive_i8 IBig
@rewrite `* self += IBig :: from ( rhs )` => `vp_self.add_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn IBig::sub_primitive -> r
@mono T=i8 as ibig_sub_primitive_i8
@method2fn ibig_sub_primitive_i8 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_ref_primitive -> r
@mono T=i8 as ibig_sub_ref_primitive_i8
@method2fn ibig_sub_ref_primitive_i8 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_assign_primitive
@mono T=i8 as ibig_sub_assign_primitive_i8
@method2fn ibig_sub_assign_primitive_i8 IBig
@rewrite `* self -= IBig :: from ( rhs )` => `vp_self.sub_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::sub_from_primitive -> r
@mono T=i8 as ibig_sub_from_primitive_i8
@method2fn ibig_sub_from_primitive_i8 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn IBig::sub_ref_from_primitive -> r
@mono T=i8 as ibig_sub_ref_from_primitive_i8
@method2fn ibig_sub_ref_from_primitive_i8 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn UBig::add_signed -> r
@mono T=i16 as ubig_add_signed_i16
@method2fn ubig_add_signed_i16 UBig
@rewrite `IBig :: from ( self ) + IBig :: from_signed ( rhs )` => `IBig::from(vp_self).add(crate::convert::ibig_from_signed_i16(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_ref_signed -> r
@mono T=i16 as ubig_add_ref_signed_i16
@method2fn ubig_add_ref_signed_i16 UBig
@rewrite `IBig :: from ( self ) + IBig :: from_signed ( rhs )` => `IBig::from(vp_self).add(crate::convert::ibig_from_signed_i16(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_assign_signed
@mono T=i16 as ubig_add_assign_signed_i16
@method2fn ubig_add_assign_signed_i16 UBig
@rewrite `mem :: take ( self ) . add_signed ( rhs )` => `ubig_add_signed_i16(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) + (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn UBig::sub_signed -> r
@mono T=i16 as ubig_sub_signed_i16
@method2fn ubig_sub_signed_i16 UBig
@rewrite `IBig :: from ( self ) - IBig :: from_signed ( rhs )` => `IBig::from(vp_self).sub(crate::convert::ibig_from_signed_i16(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_ref_signed -> r
@mono T=i16 as ubig_sub_ref_signed_i16
@method2fn ubig_sub_ref_signed_i16 UBig
@rewrite `IBig :: from ( self ) - IBig :: from_signed ( rhs )` => `IBig::from(vp_self).sub(crate::convert::ibig_from_signed_i16(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_assign_signed
@mono T=i16 as ubig_sub_assign_signed_i16
@method2fn ubig_sub_assign_signed_i16 UBig
@rewrite `mem :: take ( self ) . sub_signed ( rhs )` => `ubig_sub_signed_i16(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) - (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::add_primitive -> r
@mono T=i16 as ibig_add_primitive_i16
@method2fn ibig_add_primitive_i16 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_ref_primitive -> r
@mono T=i16 as ibig_add_ref_primitive_i16
@method2fn ibig_add_ref_primitive_i16 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_assign_primitive
@mono T=i16 as ibig_add_assign_primitive_i16
@method2fn ibig_add_assign_primitive_i16 IBig
@rewrite `* self += IBig :: from ( rhs )` => `vp_self.add_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn IBig::sub_primitive -> r
@mono T=i16 as ibig_sub_primitive_i16
@method2fn ibig_sub_primitive_i16 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_ref_primitive -> r
@mono T=i16 as ibig_sub_ref_primitive_i16
@method2fn ibig_sub_ref_primitive_i16 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_assign_primitive
@mono T=i16 as ibig_sub_assign_primitive_i16
@method2fn ibig_sub_assign_primitive_i16 IBig
@rewrite `* self -= IBig :: from ( rhs )` => `vp_self.sub_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::sub_from_primitive -> r
@mono T=i16 as ibig_sub_from_primitive_i16
@method2fn ibig_sub_from_primitive_i16 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn IBig::sub_ref_from_primitive -> r
@mono T=i16 as ibig_sub_ref_from_primitive_i16
@method2fn ibig_sub_ref_from_primitive_i16 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn UBig::add_signed -> r
@mono T=i32 as ubig_add_signed_i32
@method2fn ubig_add_signed_i32 UBig
@rewrite `IBig :: from ( self ) + IBig :: from_signed ( rhs )` => `IBig::from(vp_self).add(crate::convert::ibig_from_signed_i32(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_ref_signed -> r
@mono T=i32 as ubig_add_ref_signed_i32
@method2fn ubig_add_ref_signed_i32 UBig
@rewrite `IBig :: from ( self ) + IBig :: from_signed ( rhs )` => `IBig::from(vp_self).add(crate::convert::ibig_from_signed_i32(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_assign_signed
@mono T=i32 as ubig_add_assign_signed_i32
@method2fn ubig_add_assign_signed_i32 UBig
@rewrite `mem :: take ( self ) . add_signed ( rhs )` => `ubig_add_signed_i32(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) + (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn UBig::sub_signed -> r
@mono T=i32 as ubig_sub_signed_i32
@method2fn ubig_sub_signed_i32 UBig
@rewrite `IBig :: from ( self ) - IBig :: from_signed ( rhs )` => `IBig::from(vp_self).sub(crate::convert::ibig_from_signed_i32(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_ref_signed -> r
@mono T=i32 as ubig_sub_ref_signed_i32
@method2fn ubig_sub_ref_signed_i32 UBig
@rewrite `IBig :: from ( self ) - IBig :: from_signed ( rhs )` => `IBig::from(vp_self).sub(crate::convert::ibig_from_signed_i32(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_assign_signed
@mono T=i32 as ubig_sub_assign_signed_i32
@method2fn ubig_sub_assign_signed_i32 UBig
@rewrite `mem :: take ( self ) . sub_signed ( rhs )` => `ubig_sub_signed_i32(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) - (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::add_primitive -> r
@mono T=i32 as ibig_add_primitive_i32
@method2fn ibig_add_primitive_i32 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_ref_primitive -> r
@mono T=i32 as ibig_add_ref_primitive_i32
@method2fn ibig_add_ref_primitive_i32 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_assign_primitive
@mono T=i32 as ibig_add_assign_primitive_i32
@method2fn ibig_add_assign_primitive_i32 IBig
@rewrite `* self += IBig :: from ( rhs )` => `vp_self.add_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn IBig::sub_primitive -> r
@mono T=i32 as ibig_sub_primitive_i32
@method2fn ibig_sub_primitive_i32 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_ref_primitive -> r
@mono T=i32 as ibig_sub_ref_primitive_i32
@method2fn ibig_sub_ref_primitive_i32 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_assign_primitive
@mono T=i32 as ibig_sub_assign_primitive_i32
@method2fn ibig_sub_assign_primitive_i32 IBig
@rewrite `* self -= IBig :: from ( rhs )` => `vp_self.sub_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::sub_from_primitive -> r
@mono T=i32 as ibig_sub_from_primitive_i32
@method2fn ibig_sub_from_primitive_i32 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn IBig::sub_ref_from_primitive -> r
@mono T=i32 as ibig_sub_ref_from_primitive_i32
@method2fn ibig_sub_ref_from_primitive_i32 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn UBig::add_signed -> r
@mono T=i64 as ubig_add_signed_i64
@method2fn ubig_add_signed_i64 UBig
@rewrite `IBig :: from ( self ) + IBig :: from_signed ( rhs )` => `IBig::from(vp_self).add(crate::convert::ibig_from_signed_i64(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_ref_signed -> r
@mono T=i64 as ubig_add_ref_signed_i64
@method2fn ubig_add_ref_signed_i64 UBig
@rewrite `IBig :: from ( self ) + IBig :: from_signed ( rhs )` => `IBig::from(vp_self).add(crate::convert::ibig_from_signed_i64(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_assign_signed
@mono T=i64 as ubig_add_assign_signed_i64
@method2fn ubig_add_assign_signed_i64 UBig
@rewrite `mem :: take ( self ) . add_signed ( rhs )` => `ubig_add_signed_i64(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) + (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn UBig::sub_signed -> r
@mono T=i64 as ubig_sub_signed_i64
@method2fn ubig_sub_signed_i64 UBig
@rewrite `IBig :: from ( self ) - IBig :: from_signed ( rhs )` => `IBig::from(vp_self).sub(crate::convert::ibig_from_signed_i64(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_ref_signed -> r
@mono T=i64 as ubig_sub_ref_signed_i64
@method2fn ubig_sub_ref_signed_i64 UBig
@rewrite `IBig :: from ( self ) - IBig :: from_signed ( rhs )` => `IBig::from(vp_self).sub(crate::convert::ibig_from_signed_i64(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_assign_signed
@mono T=i64 as ubig_sub_assign_signed_i64
@method2fn ubig_sub_assign_signed_i64 UBig
@rewrite `mem :: take ( self ) . sub_signed ( rhs )` => `ubig_sub_signed_i64(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) - (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::add_primitive -> r
@mono T=i64 as ibig_add_primitive_i64
@method2fn ibig_add_primitive_i64 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_ref_primitive -> r
@mono T=i64 as ibig_add_ref_primitive_i64
@method2fn ibig_add_ref_primitive_i64 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_assign_primitive
@mono T=i64 as ibig_add_assign_primitive_i64
@method2fn ibig_add_assign_primitive_i64 IBig
@rewrite `* self += IBig :: from ( rhs )` => `vp_self.add_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn IBig::sub_primitive -> r
@mono T=i64 as ibig_sub_primitive_i64
@method2fn ibig_sub_primitive_i64 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_ref_primitive -> r
@mono T=i64 as ibig_sub_ref_primitive_i64
@method2fn ibig_sub_ref_primitive_i64 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_assign_primitive
@mono T=i64 as ibig_sub_assign_primitive_i64
@method2fn ibig_sub_assign_primitive_i64 IBig
@rewrite `* self -= IBig :: from ( rhs )` => `vp_self.sub_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::sub_from_primitive -> r
@mono T=i64 as ibig_sub_from_primitive_i64
@method2fn ibig_sub_from_primitive_i64 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn IBig::sub_ref_from_primitive -> r
@mono T=i64 as ibig_sub_ref_from_primitive_i64
@method2fn ibig_sub_ref_from_primitive_i64 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn UBig::add_signed -> r
@mono T=i128 as ubig_add_signed_i128
@method2fn ubig_add_signed_i128 UBig
@rewrite `IBig :: from ( self ) + IBig :: from_signed ( rhs )` => `IBig::from(vp_self).add(crate::convert::ibig_from_signed_i128(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_ref_signed -> r
@mono T=i128 as ubig_add_ref_signed_i128
@method2fn ubig_add_ref_signed_i128 UBig
@rewrite `IBig :: from ( self ) + IBig :: from_signed ( rhs )` => `IBig::from(vp_self).add(crate::convert::ibig_from_signed_i128(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_assign_signed
@mono T=i128 as ubig_add_assign_signed_i128
@method2fn ubig_add_assign_signed_i128 UBig
@rewrite `mem :: take ( self ) . add_signed ( rhs )` => `ubig_add_signed_i128(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) + (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn UBig::sub_signed -> r
@mono T=i128 as ubig_sub_signed_i128
@method2fn ubig_sub_signed_i128 UBig
@rewrite `IBig :: from ( self ) - IBig :: from_signed ( rhs )` => `IBig::from(vp_self).sub(crate::convert::ibig_from_signed_i128(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_ref_signed -> r
@mono T=i128 as ubig_sub_ref_signed_i128
@method2fn ubig_sub_ref_signed_i128 UBig
@rewrite `IBig :: from ( self ) - IBig :: from_signed ( rhs )` => `IBig::from(vp_self).sub(crate::convert::ibig_from_signed_i128(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_assign_signed
@mono T=i128 as ubig_sub_assign_signed_i128
@method2fn ubig_sub_assign_signed_i128 UBig
@rewrite `mem :: take ( self ) . sub_signed ( rhs )` => `ubig_sub_signed_i128(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) - (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::add_primitive -> r
@mono T=i128 as ibig_add_primitive_i128
@method2fn ibig_add_primitive_i128 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_ref_primitive -> r
@mono T=i128 as ibig_add_ref_primitive_i128
@method2fn ibig_add_ref_primitive_i128 IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_assign_primitive
@mono T=i128 as ibig_add_assign_primitive_i128
@method2fn ibig_add_assign_primitive_i128 IBig
@rewrite `* self += IBig :: from ( rhs )` => `vp_self.add_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn IBig::sub_primitive -> r
@mono T=i128 as ibig_sub_primitive_i128
@method2fn ibig_sub_primitive_i128 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_ref_primitive -> r
@mono T=i128 as ibig_sub_ref_primitive_i128
@method2fn ibig_sub_ref_primitive_i128 IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_assign_primitive
@mono T=i128 as ibig_sub_assign_primitive_i128
@method2fn ibig_sub_assign_primitive_i128 IBig
@rewrite `* self -= IBig :: from ( rhs )` => `vp_self.sub_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::sub_from_primitive -> r
@mono T=i128 as ibig_sub_from_primitive_i128
@method2fn ibig_sub_from_primitive_i128 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn IBig::sub_ref_from_primitive -> r
@mono T=i128 as ibig_sub_ref_from_primitive_i128
@method2fn ibig_sub_ref_from_primitive_i128 IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn UBig::add_signed -> r
@mono T=isize as ubig_add_signed_isize
@method2fn ubig_add_signed_isize UBig
@rewrite `IBig :: from ( self ) + IBig :: from_signed ( rhs )` => `IBig::from(vp_self).add(crate::convert::ibig_from_signed_isize(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_ref_signed -> r
@mono T=isize as ubig_add_ref_signed_isize
@method2fn ubig_add_ref_signed_isize UBig
@rewrite `IBig :: from ( self ) + IBig :: from_signed ( rhs )` => `IBig::from(vp_self).add(crate::convert::ibig_from_signed_isize(rhs))`
@panics (vp_self.v() as int) + (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn UBig::add_assign_signed
@mono T=isize as ubig_add_assign_signed_isize
@method2fn ubig_add_assign_signed_isize UBig
@rewrite `mem :: take ( self ) . add_signed ( rhs )` => `ubig_add_signed_isize(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) + (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn UBig::sub_signed -> r
@mono T=isize as ubig_sub_signed_isize
@method2fn ubig_sub_signed_isize UBig
@rewrite `IBig :: from ( self ) - IBig :: from_signed ( rhs )` => `IBig::from(vp_self).sub(crate::convert::ibig_from_signed_isize(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_ref_signed -> r
@mono T=isize as ubig_sub_ref_signed_isize
@method2fn ubig_sub_ref_signed_isize UBig
@rewrite `IBig :: from ( self ) - IBig :: from_signed ( rhs )` => `IBig::from(vp_self).sub(crate::convert::ibig_from_signed_isize(rhs))`
@panics (vp_self.v() as int) - (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn UBig::sub_assign_signed
@mono T=isize as ubig_sub_assign_signed_isize
@method2fn ubig_sub_assign_signed_isize UBig
@rewrite `mem :: take ( self ) . sub_signed ( rhs )` => `ubig_sub_signed_isize(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) - (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::add_primitive -> r
@mono T=isize as ibig_add_primitive_isize
@method2fn ibig_add_primitive_isize IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_ref_primitive -> r
@mono T=isize as ibig_add_ref_primitive_isize
@method2fn ibig_add_ref_primitive_isize IBig
@rewrite `self + IBig :: from ( rhs )` => `vp_self.add(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) + (rhs as int)
@fn IBig::add_assign_primitive
@mono T=isize as ibig_add_assign_primitive_isize
@method2fn ibig_add_assign_primitive_isize IBig
@rewrite `* self += IBig :: from ( rhs )` => `vp_self.add_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) + (rhs as int)
@fn IBig::sub_primitive -> r
@mono T=isize as ibig_sub_primitive_isize
@method2fn ibig_sub_primitive_isize IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_ref_primitive -> r
@mono T=isize as ibig_sub_ref_primitive_isize
@method2fn ibig_sub_ref_primitive_isize IBig
@rewrite `self - IBig :: from ( rhs )` => `vp_self.sub(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) - (rhs as int)
@fn IBig::sub_assign_primitive
@mono T=isize as ibig_sub_assign_primitive_isize
@method2fn ibig_sub_assign_primitive_isize IBig
@rewrite `* self -= IBig :: from ( rhs )` => `vp_self.sub_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) - (rhs as int)
@fn IBig::sub_from_primitive -> r
@mono T=isize as ibig_sub_from_primitive_isize
@method2fn ibig_sub_from_primitive_isize IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@fn IBig::sub_ref_from_primitive -> r
@mono T=isize as ibig_sub_ref_from_primitive_isize
@method2fn ibig_sub_ref_from_primitive_isize IBig
@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`
    requires vp_self.wf()
    ensures r.wf(), r.v() == rhs as int - vp_self.v()
@file mul_ops.rs
@fn UBig::mul_unsigned -> r
@mono T=u8 as ubig_mul_unsigned_u8
@method2fn ubig_mul_unsigned_u8 UBig
@rewrite `self * UBig :: from_unsigned ( rhs )` => `vp_self.mul(crate::convert::ubig_from_unsigned_u8(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_ref_unsigned -> r
@mono T=u8 as ubig_mul_ref_unsigned_u8
@method2fn ubig_mul_ref_unsigned_u8 UBig
@rewrite `self * UBig :: from_unsigned ( rhs )` => `vp_self.mul(crate::convert::ubig_from_unsigned_u8(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_assign_unsigned
@mono T=u8 as ubig_mul_assign_unsigned_u8
@method2fn ubig_mul_assign_unsigned_u8 UBig
@rewrite `* self *= UBig :: from_unsigned ( rhs )` => `vp_self.mul_assign(crate::convert::ubig_from_unsigned_u8(rhs))`
@panics (old(vp_self).v() as int) * (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn IBig::mul_primitive -> r
@mono T=u8 as ibig_mul_primitive_u8
@method2fn ibig_mul_primitive_u8 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_ref_primitive -> r
@mono T=u8 as ibig_mul_ref_primitive_u8
@method2fn ibig_mul_ref_primitive_u8 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_assign_primitive
@mono T=u8 as ibig_mul_assign_primitive_u8
@method2fn ibig_mul_assign_primitive_u8 IBig
@rewrite `* self *= IBig :: from ( rhs )` => `vp_self.mul_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn UBig::mul_unsigned -> r
@mono T=u16 as ubig_mul_unsigned_u16
@method2fn ubig_mul_unsigned_u16 UBig
@rewrite `self * UBig :: from_unsigned ( rhs )` => `vp_self.mul(crate::convert::ubig_from_unsigned_u16(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_ref_unsigned -> r
@mono T=u16 as ubig_mul_ref_unsigned_u16
@method2fn ubig_mul_ref_unsigned_u16 UBig
@rewrite `self * UBig :: from_unsigned ( rhs )` => `vp_self.mul(crate::convert::ubig_from_unsigned_u16(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_assign_unsigned
@mono T=u16 as ubig_mul_assign_unsigned_u16
@method2fn ubig_mul_assign_unsigned_u16 UBig
@rewrite `* self *= UBig :: from_unsigned ( rhs )` => `vp_self.mul_assign(crate::convert::ubig_from_unsigned_u16(rhs))`
@panics (old(vp_self).v() as int) * (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn IBig::mul_primitive -> r
@mono T=u16 as ibig_mul_primitive_u16
@method2fn ibig_mul_primitive_u16 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_ref_primitive -> r
@mono T=u16 as ibig_mul_ref_primitive_u16
@method2fn ibig_mul_ref_primitive_u16 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_assign_primitive
@mono T=u16 as ibig_mul_assign_primitive_u16
@method2fn ibig_mul_assign_primitive_u16 IBig
@rewrite `* self *= IBig :: from ( rhs )` => `vp_self.mul_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn UBig::mul_unsigned -> r
@mono T=u32 as ubig_mul_unsigned_u32
@method2fn ubig_mul_unsigned_u32 UBig
@rewrite `self * UBig :: from_unsigned ( rhs )` => `vp_self.mul(crate::convert::ubig_from_unsigned_u32(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_ref_unsigned -> r
@mono T=u32 as ubig_mul_ref_unsigned_u32
@method2fn ubig_mul_ref_unsigned_u32 UBig
@rewrite `self * UBig :: from_unsigned ( rhs )` => `vp_self.mul(crate::convert::ubig_from_unsigned_u32(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_assign_unsigned
@mono T=u32 as ubig_mul_assign_unsigned_u32
@method2fn ubig_mul_assign_unsigned_u32 UBig
@rewrite `* self *= UBig :: from_unsigned ( rhs )` => `vp_self.mul_assign(crate::convert::ubig_from_unsigned_u32(rhs))`
@panics (old(vp_self).v() as int) * (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn IBig::mul_primitive -> r
@mono T=u32 as ibig_mul_primitive_u32
@method2fn ibig_mul_primitive_u32 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_ref_primitive -> r
@mono T=u32 as ibig_mul_ref_primitive_u32
@method2fn ibig_mul_ref_primitive_u32 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_assign_primitive
@mono T=u32 as ibig_mul_assign_primitive_u32
@method2fn ibig_mul_assign_primitive_u32 IBig
@rewrite `* self *= IBig :: from ( rhs )` => `vp_self.mul_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn UBig::mul_unsigned -> r
@mono T=u64 as ubig_mul_unsigned_u64
@method2fn ubig_mul_unsigned_u64 UBig
@rewrite `self * UBig :: from_unsigned ( rhs )` => `vp_self.mul(crate::convert::ubig_from_unsigned_u64(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_ref_unsigned -> r
@mono T=u64 as ubig_mul_ref_unsigned_u64
@method2fn ubig_mul_ref_unsigned_u64 UBig
@rewrite `self * UBig :: from_unsigned ( rhs )` => `vp_self.mul(crate::convert::ubig_from_unsigned_u64(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_assign_unsigned
@mono T=u64 as ubig_mul_assign_unsigned_u64
@method2fn ubig_mul_assign_unsigned_u64 UBig
@rewrite `* self *= UBig :: from_unsigned ( rhs )` => `vp_self.mul_assign(crate::convert::ubig_from_unsigned_u64(rhs))`
@panics (old(vp_self).v() as int) * (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn IBig::mul_primitive -> r
@mono T=u64 as ibig_mul_primitive_u64
@method2fn ibig_mul_primitive_u64 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_ref_primitive -> r
@mono T=u64 as ibig_mul_ref_primitive_u64
@method2fn ibig_mul_ref_primitive_u64 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_assign_primitive
@mono T=u64 as ibig_mul_assign_primitive_u64
@method2fn ibig_mul_assign_primitive_u64 IBig
@rewrite `* self *= IBig :: from ( rhs )` => `vp_self.mul_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn UBig::mul_unsigned -> r
@mono T=u128 as ubig_mul_unsigned_u128
@method2fn ubig_mul_unsigned_u128 UBig
@rewrite `self * UBig :: from_unsigned ( rhs )` => `vp_self.mul(crate::convert::ubig_from_unsigned_u128(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_ref_unsigned -> r
@mono T=u128 as ubig_mul_ref_unsigned_u128
@method2fn ubig_mul_ref_unsigned_u128 UBig
@rewrite `self * UBig :: from_unsigned ( rhs )` => `vp_self.mul(crate::convert::ubig_from_unsigned_u128(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_assign_unsigned
@mono T=u128 as ubig_mul_assign_unsigned_u128
@method2fn ubig_mul_assign_unsigned_u128 UBig
@rewrite `* self *= UBig :: from_unsigned ( rhs )` => `vp_self.mul_assign(crate::convert::ubig_from_unsigned_u128(rhs))`
@panics (old(vp_self).v() as int) * (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn IBig::mul_primitive -> r
@mono T=u128 as ibig_mul_primitive_u128
@method2fn ibig_mul_primitive_u128 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_ref_primitive -> r
@mono T=u128 as ibig_mul_ref_primitive_u128
@method2fn ibig_mul_ref_primitive_u128 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_assign_primitive
@mono T=u128 as ibig_mul_assign_primitive_u128
@method2fn ibig_mul_assign_primitive_u128 IBig
@rewrite `* self *= IBig :: from ( rhs )` => `vp_self.mul_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn UBig::mul_unsigned -> r
@mono T=usize as ubig_mul_unsigned_usize
@method2fn ubig_mul_unsigned_usize UBig
@rewrite `self * UBig :: from_unsigned ( rhs )` => `vp_self.mul(crate::convert::ubig_from_unsigned_usize(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_ref_unsigned -> r
@mono T=usize as ubig_mul_ref_unsigned_usize
@method2fn ubig_mul_ref_unsigned_usize UBig
@rewrite `self * UBig :: from_unsigned ( rhs )` => `vp_self.mul(crate::convert::ubig_from_unsigned_usize(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_assign_unsigned
@mono T=usize as ubig_mul_assign_unsigned_usize
@method2fn ubig_mul_assign_unsigned_usize UBig
@rewrite `* self *= UBig :: from_unsigned ( rhs )` => `vp_self.mul_assign(crate::convert::ubig_from_unsigned_usize(rhs))`
@panics (old(vp_self).v() as int) * (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn IBig::mul_primitive -> r
@mono T=usize as ibig_mul_primitive_usize
@method2fn ibig_mul_primitive_usize IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_ref_primitive -> r
@mono T=usize as ibig_mul_ref_primitive_usize
@method2fn ibig_mul_ref_primitive_usize IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_assign_primitive
@mono T=usize as ibig_mul_assign_primitive_usize
@method2fn ibig_mul_assign_primitive_usize IBig
@rewrite `* self *= IBig :: from ( rhs )` => `vp_self.mul_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn UBig::mul_signed -> r
@mono T=i8 as ubig_mul_signed_i8
@method2fn ubig_mul_signed_i8 UBig
@rewrite `IBig :: from ( self ) * IBig :: from_signed ( rhs )` => `IBig::from(vp_self).mul(crate::convert::ibig_from_signed_i8(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_ref_signed -> r
@mono T=i8 as ubig_mul_ref_signed_i8
@method2fn ubig_mul_ref_signed_i8 UBig
@rewrite `IBig :: from ( self ) * IBig :: from_signed ( rhs )` => `IBig::from(vp_self).mul(crate::convert::ibig_from_signed_i8(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_assign_signed
@mono T=i8 as ubig_mul_assign_signed_i8
@method2fn ubig_mul_assign_signed_i8 UBig
@rewrite `mem :: take ( self ) . mul_signed ( rhs )` => `ubig_mul_signed_i8(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) * (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn IBig::mul_primitive -> r
@mono T=i8 as ibig_mul_primitive_i8
@method2fn ibig_mul_primitive_i8 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_ref_primitive -> r
@mono T=i8 as ibig_mul_ref_primitive_i8
@method2fn ibig_mul_ref_primitive_i8 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_assign_primitive
@mono T=i8 as ibig_mul_assign_primitive_i8
@method2fn ibig_mul_assign_primitive_i8 IBig
@rewrite `* self *= IBig :: from ( rhs )` => `vp_self.mul_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn UBig::mul_signed -> r
@mono T=i16 as ubig_mul_signed_i16
@method2fn ubig_mul_signed_i16 UBig
@rewrite `IBig :: from ( self ) * IBig :: from_signed ( rhs )` => `IBig::from(vp_self).mul(crate::convert::ibig_from_signed_i16(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_ref_signed -> r
@mono T=i16 as ubig_mul_ref_signed_i16
@method2fn ubig_mul_ref_signed_i16 UBig
@rewrite `IBig :: from ( self ) * IBig :: from_signed ( rhs )` => `IBig::from(vp_self).mul(crate::convert::ibig_from_signed_i16(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_assign_signed
@mono T=i16 as ubig_mul_assign_signed_i16
@method2fn ubig_mul_assign_signed_i16 UBig
@rewrite `mem :: take ( self ) . mul_signed ( rhs )` => `ubig_mul_signed_i16(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) * (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn IBig::mul_primitive -> r
@mono T=i16 as ibig_mul_primitive_i16
@method2fn ibig_mul_primitive_i16 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_ref_primitive -> r
@mono T=i16 as ibig_mul_ref_primitive_i16
@method2fn ibig_mul_ref_primitive_i16 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_assign_primitive
@mono T=i16 as ibig_mul_assign_primitive_i16
@method2fn ibig_mul_assign_primitive_i16 IBig
@rewrite `* self *= IBig :: from ( rhs )` => `vp_self.mul_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn UBig::mul_signed -> r
@mono T=i32 as ubig_mul_signed_i32
@method2fn ubig_mul_signed_i32 UBig
@rewrite `IBig :: from ( self ) * IBig :: from_signed ( rhs )` => `IBig::from(vp_self).mul(crate::convert::ibig_from_signed_i32(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_ref_signed -> r
@mono T=i32 as ubig_mul_ref_signed_i32
@method2fn ubig_mul_ref_signed_i32 UBig
@rewrite `IBig :: from ( self ) * IBig :: from_signed ( rhs )` => `IBig::from(vp_self).mul(crate::convert::ibig_from_signed_i32(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_assign_signed
@mono T=i32 as ubig_mul_assign_signed_i32
@method2fn ubig_mul_assign_signed_i32 UBig
@rewrite `mem :: take ( self ) . mul_signed ( rhs )` => `ubig_mul_signed_i32(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) * (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn IBig::mul_primitive -> r
@mono T=i32 as ibig_mul_primitive_i32
@method2fn ibig_mul_primitive_i32 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_ref_primitive -> r
@mono T=i32 as ibig_mul_ref_primitive_i32
@method2fn ibig_mul_ref_primitive_i32 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_assign_primitive
@mono T=i32 as ibig_mul_assign_primitive_i32
@method2fn ibig_mul_assign_primitive_i32 IBig
@rewrite `* self *= IBig :: from ( rhs )` => `vp_self.mul_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn UBig::mul_signed -> r
@mono T=i64 as ubig_mul_signed_i64
@method2fn ubig_mul_signed_i64 UBig
@rewrite `IBig :: from ( self ) * IBig :: from_signed ( rhs )` => `IBig::from(vp_self).mul(crate::convert::ibig_from_signed_i64(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_ref_signed -> r
@mono T=i64 as ubig_mul_ref_signed_i64
@method2fn ubig_mul_ref_signed_i64 UBig
@rewrite `IBig :: from ( self ) * IBig :: from_signed ( rhs )` => `IBig::from(vp_self).mul(crate::convert::ibig_from_signed_i64(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_assign_signed
@mono T=i64 as ubig_mul_assign_signed_i64
@method2fn ubig_mul_assign_signed_i64 UBig
@rewrite `mem :: take ( self ) . mul_signed ( rhs )` => `ubig_mul_signed_i64(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) * (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn IBig::mul_primitive -> r
@mono T=i64 as ibig_mul_primitive_i64
@method2fn ibig_mul_primitive_i64 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_ref_primitive -> r
@mono T=i64 as ibig_mul_ref_primitive_i64
@method2fn ibig_mul_ref_primitive_i64 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_assign_primitive
@mono T=i64 as ibig_mul_assign_primitive_i64
@method2fn ibig_mul_assign_primitive_i64 IBig
@rewrite `* self *= IBig :: from ( rhs )` => `vp_self.mul_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn UBig::mul_signed -> r
@mono T=i128 as ubig_mul_signed_i128
@method2fn ubig_mul_signed_i128 UBig
@rewrite `IBig :: from ( self ) * IBig :: from_signed ( rhs )` => `IBig::from(vp_self).mul(crate::convert::ibig_from_signed_i128(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_ref_signed -> r
@mono T=i128 as ubig_mul_ref_signed_i128
@method2fn ubig_mul_ref_signed_i128 UBig
@rewrite `IBig :: from ( self ) * IBig :: from_signed ( rhs )` => `IBig::from(vp_self).mul(crate::convert::ibig_from_signed_i128(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_assign_signed
@mono T=i128 as ubig_mul_assign_signed_i128
@method2fn ubig_mul_assign_signed_i128 UBig
@rewrite `mem :: take ( self ) . mul_signed ( rhs )` => `ubig_mul_signed_i128(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) * (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn IBig::mul_primitive -> r
@mono T=i128 as ibig_mul_primitive_i128
@method2fn ibig_mul_primitive_i128 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_ref_primitive -> r
@mono T=i128 as ibig_mul_ref_primitive_i128
@method2fn ibig_mul_ref_primitive_i128 IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_assign_primitive
@mono T=i128 as ibig_mul_assign_primitive_i128
@method2fn ibig_mul_assign_primitive_i128 IBig
@rewrite `* self *= IBig :: from ( rhs )` => `vp_self.mul_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn UBig::mul_signed -> r
@mono T=isize as ubig_mul_signed_isize
@method2fn ubig_mul_signed_isize UBig
@rewrite `IBig :: from ( self ) * IBig :: from_signed ( rhs )` => `IBig::from(vp_self).mul(crate::convert::ibig_from_signed_isize(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_ref_signed -> r
@mono T=isize as ubig_mul_ref_signed_isize
@method2fn ubig_mul_ref_signed_isize UBig
@rewrite `IBig :: from ( self ) * IBig :: from_signed ( rhs )` => `IBig::from(vp_self).mul(crate::convert::ibig_from_signed_isize(rhs))`
@panics (vp_self.v() as int) * (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn UBig::mul_assign_signed
@mono T=isize as ubig_mul_assign_signed_isize
@method2fn ubig_mul_assign_signed_isize UBig
@rewrite `mem :: take ( self ) . mul_signed ( rhs )` => `ubig_mul_signed_isize(mem::take(vp_self), rhs)`
@panics (old(vp_self).v() as int) * (rhs as int) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@fn IBig::mul_primitive -> r
@mono T=isize as ibig_mul_primitive_isize
@method2fn ibig_mul_primitive_isize IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_ref_primitive -> r
@mono T=isize as ibig_mul_ref_primitive_isize
@method2fn ibig_mul_ref_primitive_isize IBig
@rewrite `self * IBig :: from ( rhs )` => `vp_self.mul(IBig::from(rhs))`
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) * (rhs as int)
@fn IBig::mul_assign_primitive
@mono T=isize as ibig_mul_assign_primitive_isize
@method2fn ibig_mul_assign_primitive_isize IBig
@rewrite `* self *= IBig :: from ( rhs )` => `vp_self.mul_assign(IBig::from(rhs))`
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == (old(vp_self).v() as int) * (rhs as int)
@file bits.rs
@mod
/// signs of all bitwise results at once
pub proof fn lemma_signs_all()
    ensures forall|r: int, a: int, b: int| #[trigger] is_and(r, a, b) ==> ((r < 0) == (a < 0 && b < 0)), forall|r: int, a: int, b: int| #[trigger] is_or(r, a, b) ==> ((r < 0) == (a < 0 || b < 0)),
        forall|r: int, a: int, b: int| #[trigger] is_xor(r, a, b) ==> ((r < 0) == ((a < 0) != (b < 0))), forall|r: int, a: int, b: int| #[trigger] is_andnot(r, a, b) ==> ((r < 0) == (a < 0 && b >= 0))
{
    assert forall|r: int, a: int, b: int| #[trigger] is_and(r, a, b) implies ((r < 0) == (a < 0 && b < 0)) by { lemma_op_signs(r, a, b); }
    assert forall|r: int, a: int, b: int| #[trigger] is_or(r, a, b) implies ((r < 0) == (a < 0 || b < 0)) by { lemma_op_signs(r, a, b); }
    assert forall|r: int, a: int, b: int| #[trigger] is_xor(r, a, b) implies ((r < 0) == ((a < 0) != (b < 0))) by { lemma_op_signs(r, a, b); }
    assert forall|r: int, a: int, b: int| #[trigger] is_andnot(r, a, b) implies ((r < 0) == (a < 0 && b >= 0)) by { lemma_op_signs(r, a, b); }
}
@fn UBig::bitand_unsigned -> r
@mono T=u8 as ubig_bitand_unsigned_u8
@method2fn ubig_bitand_unsigned_u8 UBig
@rewrite `self . bitand ( UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u8(&{ let vp_and = vp_self.bitand(crate::convert::ubig_from_unsigned_u8(rhs)); proof { lemma_and_le(vp_and.v() as int, vp_self.v() as int, rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_assign_unsigned
@mono T=u8 as ubig_bitand_assign_unsigned_u8
@method2fn ubig_bitand_assign_unsigned_u8 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u8(rhs)`
@panics ((old(vp_self).v() as int) < 0 && (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_unsigned -> r
@mono T=u8 as ubig_bitor_unsigned_u8
@method2fn ubig_bitor_unsigned_u8 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u8(rhs)`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_ref_unsigned -> r
@mono T=u8 as ubig_bitor_ref_unsigned_u8
@method2fn ubig_bitor_ref_unsigned_u8 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u8(rhs)`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_assign_unsigned
@mono T=u8 as ubig_bitor_assign_unsigned_u8
@method2fn ubig_bitor_assign_unsigned_u8 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u8(rhs)`
@panics ((old(vp_self).v() as int) < 0 || (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_unsigned -> r
@mono T=u8 as ubig_bitxor_unsigned_u8
@method2fn ubig_bitxor_unsigned_u8 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u8(rhs)`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_ref_unsigned -> r
@mono T=u8 as ubig_bitxor_ref_unsigned_u8
@method2fn ubig_bitxor_ref_unsigned_u8 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u8(rhs)`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_assign_unsigned
@mono T=u8 as ubig_bitxor_assign_unsigned_u8
@method2fn ubig_bitxor_assign_unsigned_u8 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u8(rhs)`
@panics (((old(vp_self).v() as int) < 0) != ((rhs as int) < 0))
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_unsigned -> r
@mono T=u8 as ubig_and_not_unsigned_u8
@method2fn ubig_and_not_unsigned_u8 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u8(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_ref_unsigned -> r
@mono T=u8 as ubig_and_not_ref_unsigned_u8
@method2fn ubig_and_not_ref_unsigned_u8 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u8(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn IBig::bitor_primitive -> r
@mono T=u8 as ibig_bitor_primitive_u8
@method2fn ibig_bitor_primitive_u8 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_ref_primitive -> r
@mono T=u8 as ibig_bitor_ref_primitive_u8
@method2fn ibig_bitor_ref_primitive_u8 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_assign_primitive
@mono T=u8 as ibig_bitor_assign_primitive_u8
@method2fn ibig_bitor_assign_primitive_u8 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::bitxor_primitive -> r
@mono T=u8 as ibig_bitxor_primitive_u8
@method2fn ibig_bitxor_primitive_u8 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_ref_primitive -> r
@mono T=u8 as ibig_bitxor_ref_primitive_u8
@method2fn ibig_bitxor_ref_primitive_u8 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_assign_primitive
@mono T=u8 as ibig_bitxor_assign_primitive_u8
@method2fn ibig_bitxor_assign_primitive_u8 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::and_not_primitive -> r
@mono T=u8 as ibig_and_not_primitive_u8
@method2fn ibig_and_not_primitive_u8 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::and_not_ref_primitive -> r
@mono T=u8 as ibig_and_not_ref_primitive_u8
@method2fn ibig_and_not_ref_primitive_u8 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_unsigned -> r
@mono T=u8 as ibig_bitand_unsigned_u8
@method2fn ibig_bitand_unsigned_u8 IBig
@rewrite `self . bitand ( IBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ibig_try_to_unsigned_u8(&{ let vp_and = vp_self.bitand(crate::convert::ibig_from_unsigned_u8(rhs)); proof { lemma_and_le(vp_and.v(), vp_self.v(), rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_ref_unsigned -> r
@mono T=u8 as ibig_bitand_ref_unsigned_u8
@method2fn ibig_bitand_ref_unsigned_u8 IBig
@rewrite `self . bitand ( IBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ibig_try_to_unsigned_u8(&{ let vp_and = vp_self.bitand(crate::convert::ibig_from_unsigned_u8(rhs)); proof { lemma_and_le(vp_and.v(), vp_self.v(), rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_assign_primitive
@mono T=u8 as ibig_bitand_assign_primitive_u8
@method2fn ibig_bitand_assign_primitive_u8 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn UBig::bitand_unsigned -> r
@mono T=u16 as ubig_bitand_unsigned_u16
@method2fn ubig_bitand_unsigned_u16 UBig
@rewrite `self . bitand ( UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u16(&{ let vp_and = vp_self.bitand(crate::convert::ubig_from_unsigned_u16(rhs)); proof { lemma_and_le(vp_and.v() as int, vp_self.v() as int, rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_assign_unsigned
@mono T=u16 as ubig_bitand_assign_unsigned_u16
@method2fn ubig_bitand_assign_unsigned_u16 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u16(rhs)`
@panics ((old(vp_self).v() as int) < 0 && (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_unsigned -> r
@mono T=u16 as ubig_bitor_unsigned_u16
@method2fn ubig_bitor_unsigned_u16 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u16(rhs)`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_ref_unsigned -> r
@mono T=u16 as ubig_bitor_ref_unsigned_u16
@method2fn ubig_bitor_ref_unsigned_u16 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u16(rhs)`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_assign_unsigned
@mono T=u16 as ubig_bitor_assign_unsigned_u16
@method2fn ubig_bitor_assign_unsigned_u16 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u16(rhs)`
@panics ((old(vp_self).v() as int) < 0 || (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_unsigned -> r
@mono T=u16 as ubig_bitxor_unsigned_u16
@method2fn ubig_bitxor_unsigned_u16 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u16(rhs)`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_ref_unsigned -> r
@mono T=u16 as ubig_bitxor_ref_unsigned_u16
@method2fn ubig_bitxor_ref_unsigned_u16 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u16(rhs)`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_assign_unsigned
@mono T=u16 as ubig_bitxor_assign_unsigned_u16
@method2fn ubig_bitxor_assign_unsigned_u16 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u16(rhs)`
@panics (((old(vp_self).v() as int) < 0) != ((rhs as int) < 0))
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_unsigned -> r
@mono T=u16 as ubig_and_not_unsigned_u16
@method2fn ubig_and_not_unsigned_u16 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u16(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_ref_unsigned -> r
@mono T=u16 as ubig_and_not_ref_unsigned_u16
@method2fn ubig_and_not_ref_unsigned_u16 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u16(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn IBig::bitor_primitive -> r
@mono T=u16 as ibig_bitor_primitive_u16
@method2fn ibig_bitor_primitive_u16 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_ref_primitive -> r
@mono T=u16 as ibig_bitor_ref_primitive_u16
@method2fn ibig_bitor_ref_primitive_u16 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_assign_primitive
@mono T=u16 as ibig_bitor_assign_primitive_u16
@method2fn ibig_bitor_assign_primitive_u16 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::bitxor_primitive -> r
@mono T=u16 as ibig_bitxor_primitive_u16
@method2fn ibig_bitxor_primitive_u16 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_ref_primitive -> r
@mono T=u16 as ibig_bitxor_ref_primitive_u16
@method2fn ibig_bitxor_ref_primitive_u16 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_assign_primitive
@mono T=u16 as ibig_bitxor_assign_primitive_u16
@method2fn ibig_bitxor_assign_primitive_u16 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::and_not_primitive -> r
@mono T=u16 as ibig_and_not_primitive_u16
@method2fn ibig_and_not_primitive_u16 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::and_not_ref_primitive -> r
@mono T=u16 as ibig_and_not_ref_primitive_u16
@method2fn ibig_and_not_ref_primitive_u16 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_unsigned -> r
@mono T=u16 as ibig_bitand_unsigned_u16
@method2fn ibig_bitand_unsigned_u16 IBig
@rewrite `self . bitand ( IBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ibig_try_to_unsigned_u16(&{ let vp_and = vp_self.bitand(crate::convert::ibig_from_unsigned_u16(rhs)); proof { lemma_and_le(vp_and.v(), vp_self.v(), rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_ref_unsigned -> r
@mono T=u16 as ibig_bitand_ref_unsigned_u16
@method2fn ibig_bitand_ref_unsigned_u16 IBig
@rewrite `self . bitand ( IBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ibig_try_to_unsigned_u16(&{ let vp_and = vp_self.bitand(crate::convert::ibig_from_unsigned_u16(rhs)); proof { lemma_and_le(vp_and.v(), vp_self.v(), rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_assign_primitive
@mono T=u16 as ibig_bitand_assign_primitive_u16
@method2fn ibig_bitand_assign_primitive_u16 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn UBig::bitand_unsigned -> r
@mono T=u32 as ubig_bitand_unsigned_u32
@method2fn ubig_bitand_unsigned_u32 UBig
@rewrite `self . bitand ( UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u32(&{ let vp_and = vp_self.bitand(crate::convert::ubig_from_unsigned_u32(rhs)); proof { lemma_and_le(vp_and.v() as int, vp_self.v() as int, rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_assign_unsigned
@mono T=u32 as ubig_bitand_assign_unsigned_u32
@method2fn ubig_bitand_assign_unsigned_u32 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u32(rhs)`
@panics ((old(vp_self).v() as int) < 0 && (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_unsigned -> r
@mono T=u32 as ubig_bitor_unsigned_u32
@method2fn ubig_bitor_unsigned_u32 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u32(rhs)`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_ref_unsigned -> r
@mono T=u32 as ubig_bitor_ref_unsigned_u32
@method2fn ubig_bitor_ref_unsigned_u32 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u32(rhs)`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_assign_unsigned
@mono T=u32 as ubig_bitor_assign_unsigned_u32
@method2fn ubig_bitor_assign_unsigned_u32 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u32(rhs)`
@panics ((old(vp_self).v() as int) < 0 || (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_unsigned -> r
@mono T=u32 as ubig_bitxor_unsigned_u32
@method2fn ubig_bitxor_unsigned_u32 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u32(rhs)`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_ref_unsigned -> r
@mono T=u32 as ubig_bitxor_ref_unsigned_u32
@method2fn ubig_bitxor_ref_unsigned_u32 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u32(rhs)`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_assign_unsigned
@mono T=u32 as ubig_bitxor_assign_unsigned_u32
@method2fn ubig_bitxor_assign_unsigned_u32 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u32(rhs)`
@panics (((old(vp_self).v() as int) < 0) != ((rhs as int) < 0))
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_unsigned -> r
@mono T=u32 as ubig_and_not_unsigned_u32
@method2fn ubig_and_not_unsigned_u32 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u32(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_ref_unsigned -> r
@mono T=u32 as ubig_and_not_ref_unsigned_u32
@method2fn ubig_and_not_ref_unsigned_u32 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u32(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn IBig::bitor_primitive -> r
@mono T=u32 as ibig_bitor_primitive_u32
@method2fn ibig_bitor_primitive_u32 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_ref_primitive -> r
@mono T=u32 as ibig_bitor_ref_primitive_u32
@method2fn ibig_bitor_ref_primitive_u32 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_assign_primitive
@mono T=u32 as ibig_bitor_assign_primitive_u32
@method2fn ibig_bitor_assign_primitive_u32 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::bitxor_primitive -> r
@mono T=u32 as ibig_bitxor_primitive_u32
@method2fn ibig_bitxor_primitive_u32 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_ref_primitive -> r
@mono T=u32 as ibig_bitxor_ref_primitive_u32
@method2fn ibig_bitxor_ref_primitive_u32 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_assign_primitive
@mono T=u32 as ibig_bitxor_assign_primitive_u32
@method2fn ibig_bitxor_assign_primitive_u32 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::and_not_primitive -> r
@mono T=u32 as ibig_and_not_primitive_u32
@method2fn ibig_and_not_primitive_u32 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::and_not_ref_primitive -> r
@mono T=u32 as ibig_and_not_ref_primitive_u32
@method2fn ibig_and_not_ref_primitive_u32 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_unsigned -> r
@mono T=u32 as ibig_bitand_unsigned_u32
@method2fn ibig_bitand_unsigned_u32 IBig
@rewrite `self . bitand ( IBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ibig_try_to_unsigned_u32(&{ let vp_and = vp_self.bitand(crate::convert::ibig_from_unsigned_u32(rhs)); proof { lemma_and_le(vp_and.v(), vp_self.v(), rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_ref_unsigned -> r
@mono T=u32 as ibig_bitand_ref_unsigned_u32
@method2fn ibig_bitand_ref_unsigned_u32 IBig
@rewrite `self . bitand ( IBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ibig_try_to_unsigned_u32(&{ let vp_and = vp_self.bitand(crate::convert::ibig_from_unsigned_u32(rhs)); proof { lemma_and_le(vp_and.v(), vp_self.v(), rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_assign_primitive
@mono T=u32 as ibig_bitand_assign_primitive_u32
@method2fn ibig_bitand_assign_primitive_u32 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn UBig::bitand_unsigned -> r
@mono T=u64 as ubig_bitand_unsigned_u64
@method2fn ubig_bitand_unsigned_u64 UBig
@rewrite `self . bitand ( UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u64(&{ let vp_and = vp_self.bitand(crate::convert::ubig_from_unsigned_u64(rhs)); proof { lemma_and_le(vp_and.v() as int, vp_self.v() as int, rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_assign_unsigned
@mono T=u64 as ubig_bitand_assign_unsigned_u64
@method2fn ubig_bitand_assign_unsigned_u64 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u64(rhs)`
@panics ((old(vp_self).v() as int) < 0 && (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_unsigned -> r
@mono T=u64 as ubig_bitor_unsigned_u64
@method2fn ubig_bitor_unsigned_u64 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u64(rhs)`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_ref_unsigned -> r
@mono T=u64 as ubig_bitor_ref_unsigned_u64
@method2fn ubig_bitor_ref_unsigned_u64 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u64(rhs)`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_assign_unsigned
@mono T=u64 as ubig_bitor_assign_unsigned_u64
@method2fn ubig_bitor_assign_unsigned_u64 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u64(rhs)`
@panics ((old(vp_self).v() as int) < 0 || (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_unsigned -> r
@mono T=u64 as ubig_bitxor_unsigned_u64
@method2fn ubig_bitxor_unsigned_u64 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u64(rhs)`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_ref_unsigned -> r
@mono T=u64 as ubig_bitxor_ref_unsigned_u64
@method2fn ubig_bitxor_ref_unsigned_u64 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u64(rhs)`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_assign_unsigned
@mono T=u64 as ubig_bitxor_assign_unsigned_u64
@method2fn ubig_bitxor_assign_unsigned_u64 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u64(rhs)`
@panics (((old(vp_self).v() as int) < 0) != ((rhs as int) < 0))
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_unsigned -> r
@mono T=u64 as ubig_and_not_unsigned_u64
@method2fn ubig_and_not_unsigned_u64 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u64(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_ref_unsigned -> r
@mono T=u64 as ubig_and_not_ref_unsigned_u64
@method2fn ubig_and_not_ref_unsigned_u64 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u64(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn IBig::bitor_primitive -> r
@mono T=u64 as ibig_bitor_primitive_u64
@method2fn ibig_bitor_primitive_u64 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_ref_primitive -> r
@mono T=u64 as ibig_bitor_ref_primitive_u64
@method2fn ibig_bitor_ref_primitive_u64 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_assign_primitive
@mono T=u64 as ibig_bitor_assign_primitive_u64
@method2fn ibig_bitor_assign_primitive_u64 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::bitxor_primitive -> r
@mono T=u64 as ibig_bitxor_primitive_u64
@method2fn ibig_bitxor_primitive_u64 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_ref_primitive -> r
@mono T=u64 as ibig_bitxor_ref_primitive_u64
@method2fn ibig_bitxor_ref_primitive_u64 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_assign_primitive
@mono T=u64 as ibig_bitxor_assign_primitive_u64
@method2fn ibig_bitxor_assign_primitive_u64 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::and_not_primitive -> r
@mono T=u64 as ibig_and_not_primitive_u64
@method2fn ibig_and_not_primitive_u64 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::and_not_ref_primitive -> r
@mono T=u64 as ibig_and_not_ref_primitive_u64
@method2fn ibig_and_not_ref_primitive_u64 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_unsigned -> r
@mono T=u64 as ibig_bitand_unsigned_u64
@method2fn ibig_bitand_unsigned_u64 IBig
@rewrite `self . bitand ( IBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ibig_try_to_unsigned_u64(&{ let vp_and = vp_self.bitand(crate::convert::ibig_from_unsigned_u64(rhs)); proof { lemma_and_le(vp_and.v(), vp_self.v(), rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_ref_unsigned -> r
@mono T=u64 as ibig_bitand_ref_unsigned_u64
@method2fn ibig_bitand_ref_unsigned_u64 IBig
@rewrite `self . bitand ( IBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ibig_try_to_unsigned_u64(&{ let vp_and = vp_self.bitand(crate::convert::ibig_from_unsigned_u64(rhs)); proof { lemma_and_le(vp_and.v(), vp_self.v(), rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_assign_primitive
@mono T=u64 as ibig_bitand_assign_primitive_u64
@method2fn ibig_bitand_assign_primitive_u64 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn UBig::bitand_unsigned -> r
@mono T=u128 as ubig_bitand_unsigned_u128
@method2fn ubig_bitand_unsigned_u128 UBig
@rewrite `self . bitand ( UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u128(&{ let vp_and = vp_self.bitand(crate::convert::ubig_from_unsigned_u128(rhs)); proof { lemma_and_le(vp_and.v() as int, vp_self.v() as int, rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_assign_unsigned
@mono T=u128 as ubig_bitand_assign_unsigned_u128
@method2fn ubig_bitand_assign_unsigned_u128 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u128(rhs)`
@panics ((old(vp_self).v() as int) < 0 && (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_unsigned -> r
@mono T=u128 as ubig_bitor_unsigned_u128
@method2fn ubig_bitor_unsigned_u128 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u128(rhs)`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_ref_unsigned -> r
@mono T=u128 as ubig_bitor_ref_unsigned_u128
@method2fn ubig_bitor_ref_unsigned_u128 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u128(rhs)`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_assign_unsigned
@mono T=u128 as ubig_bitor_assign_unsigned_u128
@method2fn ubig_bitor_assign_unsigned_u128 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u128(rhs)`
@panics ((old(vp_self).v() as int) < 0 || (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_unsigned -> r
@mono T=u128 as ubig_bitxor_unsigned_u128
@method2fn ubig_bitxor_unsigned_u128 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u128(rhs)`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_ref_unsigned -> r
@mono T=u128 as ubig_bitxor_ref_unsigned_u128
@method2fn ubig_bitxor_ref_unsigned_u128 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u128(rhs)`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_assign_unsigned
@mono T=u128 as ubig_bitxor_assign_unsigned_u128
@method2fn ubig_bitxor_assign_unsigned_u128 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u128(rhs)`
@panics (((old(vp_self).v() as int) < 0) != ((rhs as int) < 0))
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_unsigned -> r
@mono T=u128 as ubig_and_not_unsigned_u128
@method2fn ubig_and_not_unsigned_u128 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u128(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_ref_unsigned -> r
@mono T=u128 as ubig_and_not_ref_unsigned_u128
@method2fn ubig_and_not_ref_unsigned_u128 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u128(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn IBig::bitor_primitive -> r
@mono T=u128 as ibig_bitor_primitive_u128
@method2fn ibig_bitor_primitive_u128 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_ref_primitive -> r
@mono T=u128 as ibig_bitor_ref_primitive_u128
@method2fn ibig_bitor_ref_primitive_u128 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_assign_primitive
@mono T=u128 as ibig_bitor_assign_primitive_u128
@method2fn ibig_bitor_assign_primitive_u128 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::bitxor_primitive -> r
@mono T=u128 as ibig_bitxor_primitive_u128
@method2fn ibig_bitxor_primitive_u128 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_ref_primitive -> r
@mono T=u128 as ibig_bitxor_ref_primitive_u128
@method2fn ibig_bitxor_ref_primitive_u128 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_assign_primitive
@mono T=u128 as ibig_bitxor_assign_primitive_u128
@method2fn ibig_bitxor_assign_primitive_u128 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::and_not_primitive -> r
@mono T=u128 as ibig_and_not_primitive_u128
@method2fn ibig_and_not_primitive_u128 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::and_not_ref_primitive -> r
@mono T=u128 as ibig_and_not_ref_primitive_u128
@method2fn ibig_and_not_ref_primitive_u128 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_unsigned -> r
@mono T=u128 as ibig_bitand_unsigned_u128
@method2fn ibig_bitand_unsigned_u128 IBig
@rewrite `self . bitand ( IBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ibig_try_to_unsigned_u128(&{ let vp_and = vp_self.bitand(crate::convert::ibig_from_unsigned_u128(rhs)); proof { lemma_and_le(vp_and.v(), vp_self.v(), rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_ref_unsigned -> r
@mono T=u128 as ibig_bitand_ref_unsigned_u128
@method2fn ibig_bitand_ref_unsigned_u128 IBig
@rewrite `self . bitand ( IBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ibig_try_to_unsigned_u128(&{ let vp_and = vp_self.bitand(crate::convert::ibig_from_unsigned_u128(rhs)); proof { lemma_and_le(vp_and.v(), vp_self.v(), rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_assign_primitive
@mono T=u128 as ibig_bitand_assign_primitive_u128
@method2fn ibig_bitand_assign_primitive_u128 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn UBig::bitand_unsigned -> r
@mono T=usize as ubig_bitand_unsigned_usize
@method2fn ubig_bitand_unsigned_usize UBig
@rewrite `self . bitand ( UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_usize(&{ let vp_and = vp_self.bitand(crate::convert::ubig_from_unsigned_usize(rhs)); proof { lemma_and_le(vp_and.v() as int, vp_self.v() as int, rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_assign_unsigned
@mono T=usize as ubig_bitand_assign_unsigned_usize
@method2fn ubig_bitand_assign_unsigned_usize UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_usize(rhs)`
@panics ((old(vp_self).v() as int) < 0 && (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_unsigned -> r
@mono T=usize as ubig_bitor_unsigned_usize
@method2fn ubig_bitor_unsigned_usize UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_usize(rhs)`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_ref_unsigned -> r
@mono T=usize as ubig_bitor_ref_unsigned_usize
@method2fn ubig_bitor_ref_unsigned_usize UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_usize(rhs)`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_assign_unsigned
@mono T=usize as ubig_bitor_assign_unsigned_usize
@method2fn ubig_bitor_assign_unsigned_usize UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_usize(rhs)`
@panics ((old(vp_self).v() as int) < 0 || (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_unsigned -> r
@mono T=usize as ubig_bitxor_unsigned_usize
@method2fn ubig_bitxor_unsigned_usize UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_usize(rhs)`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_ref_unsigned -> r
@mono T=usize as ubig_bitxor_ref_unsigned_usize
@method2fn ubig_bitxor_ref_unsigned_usize UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_usize(rhs)`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_assign_unsigned
@mono T=usize as ubig_bitxor_assign_unsigned_usize
@method2fn ubig_bitxor_assign_unsigned_usize UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_usize(rhs)`
@panics (((old(vp_self).v() as int) < 0) != ((rhs as int) < 0))
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_unsigned -> r
@mono T=usize as ubig_and_not_unsigned_usize
@method2fn ubig_and_not_unsigned_usize UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_usize(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_ref_unsigned -> r
@mono T=usize as ubig_and_not_ref_unsigned_usize
@method2fn ubig_and_not_ref_unsigned_usize UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_usize(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn IBig::bitor_primitive -> r
@mono T=usize as ibig_bitor_primitive_usize
@method2fn ibig_bitor_primitive_usize IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_ref_primitive -> r
@mono T=usize as ibig_bitor_ref_primitive_usize
@method2fn ibig_bitor_ref_primitive_usize IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_assign_primitive
@mono T=usize as ibig_bitor_assign_primitive_usize
@method2fn ibig_bitor_assign_primitive_usize IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::bitxor_primitive -> r
@mono T=usize as ibig_bitxor_primitive_usize
@method2fn ibig_bitxor_primitive_usize IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_ref_primitive -> r
@mono T=usize as ibig_bitxor_ref_primitive_usize
@method2fn ibig_bitxor_ref_primitive_usize IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_assign_primitive
@mono T=usize as ibig_bitxor_assign_primitive_usize
@method2fn ibig_bitxor_assign_primitive_usize IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::and_not_primitive -> r
@mono T=usize as ibig_and_not_primitive_usize
@method2fn ibig_and_not_primitive_usize IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::and_not_ref_primitive -> r
@mono T=usize as ibig_and_not_ref_primitive_usize
@method2fn ibig_and_not_ref_primitive_usize IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_unsigned -> r
@mono T=usize as ibig_bitand_unsigned_usize
@method2fn ibig_bitand_unsigned_usize IBig
@rewrite `self . bitand ( IBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ibig_try_to_unsigned_usize(&{ let vp_and = vp_self.bitand(crate::convert::ibig_from_unsigned_usize(rhs)); proof { lemma_and_le(vp_and.v(), vp_self.v(), rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_ref_unsigned -> r
@mono T=usize as ibig_bitand_ref_unsigned_usize
@method2fn ibig_bitand_ref_unsigned_usize IBig
@rewrite `self . bitand ( IBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ibig_try_to_unsigned_usize(&{ let vp_and = vp_self.bitand(crate::convert::ibig_from_unsigned_usize(rhs)); proof { lemma_and_le(vp_and.v(), vp_self.v(), rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and((r as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_assign_primitive
@mono T=usize as ibig_bitand_assign_primitive_usize
@method2fn ibig_bitand_assign_primitive_usize IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn UBig::bitand_signed -> r
@mono T=i8 as ubig_bitand_signed_i8
@method2fn ubig_bitand_signed_i8 UBig
@rewrite `IBig :: from ( self ) & IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitand(crate::convert::ibig_from_signed_i8(rhs))`
@panics ((vp_self.v() as int) < 0 && (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_ref_signed -> r
@mono T=i8 as ubig_bitand_ref_signed_i8
@method2fn ubig_bitand_ref_signed_i8 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i8(rhs)`
@rewrite `self & rhs_signed . unsigned_abs ( )` => `vp_self.bitand(rhs_signed.unsigned_abs())`
@rewrite `IBig :: from ( self ) & rhs_signed` => `IBig::from(vp_self).bitand(rhs_signed)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_assign_signed
@mono T=i8 as ubig_bitand_assign_signed_i8
@method2fn ubig_bitand_assign_signed_i8 UBig
@rewrite `mem :: take ( self ) . bitand_signed ( rhs )` => `ubig_bitand_signed_i8(mem::take(vp_self), rhs)`
@panics ((old(vp_self).v() as int) < 0 && (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_signed -> r
@mono T=i8 as ubig_bitor_signed_i8
@method2fn ubig_bitor_signed_i8 UBig
@rewrite `IBig :: from ( self ) | IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitor(crate::convert::ibig_from_signed_i8(rhs))`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_ref_signed -> r
@mono T=i8 as ubig_bitor_ref_signed_i8
@method2fn ubig_bitor_ref_signed_i8 UBig
@rewrite `IBig :: from ( self ) | IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitor(crate::convert::ibig_from_signed_i8(rhs))`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_assign_signed
@mono T=i8 as ubig_bitor_assign_signed_i8
@method2fn ubig_bitor_assign_signed_i8 UBig
@rewrite `mem :: take ( self ) . bitor_signed ( rhs )` => `ubig_bitor_signed_i8(mem::take(vp_self), rhs)`
@panics ((old(vp_self).v() as int) < 0 || (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_signed -> r
@mono T=i8 as ubig_bitxor_signed_i8
@method2fn ubig_bitxor_signed_i8 UBig
@rewrite `IBig :: from ( self ) ^ IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitxor(crate::convert::ibig_from_signed_i8(rhs))`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_ref_signed -> r
@mono T=i8 as ubig_bitxor_ref_signed_i8
@method2fn ubig_bitxor_ref_signed_i8 UBig
@rewrite `IBig :: from ( self ) ^ IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitxor(crate::convert::ibig_from_signed_i8(rhs))`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_assign_signed
@mono T=i8 as ubig_bitxor_assign_signed_i8
@method2fn ubig_bitxor_assign_signed_i8 UBig
@rewrite `mem :: take ( self ) . bitxor_signed ( rhs )` => `ubig_bitxor_signed_i8(mem::take(vp_self), rhs)`
@panics (((old(vp_self).v() as int) < 0) != ((rhs as int) < 0))
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_signed -> r
@mono T=i8 as ubig_and_not_signed_i8
@method2fn ubig_and_not_signed_i8 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i8(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_ref_signed -> r
@mono T=i8 as ubig_and_not_ref_signed_i8
@method2fn ubig_and_not_ref_signed_i8 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i8(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn IBig::bitor_primitive -> r
@mono T=i8 as ibig_bitor_primitive_i8
@method2fn ibig_bitor_primitive_i8 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_ref_primitive -> r
@mono T=i8 as ibig_bitor_ref_primitive_i8
@method2fn ibig_bitor_ref_primitive_i8 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_assign_primitive
@mono T=i8 as ibig_bitor_assign_primitive_i8
@method2fn ibig_bitor_assign_primitive_i8 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::bitxor_primitive -> r
@mono T=i8 as ibig_bitxor_primitive_i8
@method2fn ibig_bitxor_primitive_i8 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_ref_primitive -> r
@mono T=i8 as ibig_bitxor_ref_primitive_i8
@method2fn ibig_bitxor_ref_primitive_i8 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_assign_primitive
@mono T=i8 as ibig_bitxor_assign_primitive_i8
@method2fn ibig_bitxor_assign_primitive_i8 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::and_not_primitive -> r
@mono T=i8 as ibig_and_not_primitive_i8
@method2fn ibig_and_not_primitive_i8 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::and_not_ref_primitive -> r
@mono T=i8 as ibig_and_not_ref_primitive_i8
@method2fn ibig_and_not_ref_primitive_i8 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_signed -> r
@mono T=i8 as ibig_bitand_signed_i8
@method2fn ibig_bitand_signed_i8 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i8(rhs)`
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_ref_signed -> r
@mono T=i8 as ibig_bitand_ref_signed_i8
@method2fn ibig_bitand_ref_signed_i8 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i8(rhs)`
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_assign_primitive
@mono T=i8 as ibig_bitand_assign_primitive_i8
@method2fn ibig_bitand_assign_primitive_i8 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn UBig::bitand_signed -> r
@mono T=i16 as ubig_bitand_signed_i16
@method2fn ubig_bitand_signed_i16 UBig
@rewrite `IBig :: from ( self ) & IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitand(crate::convert::ibig_from_signed_i16(rhs))`
@panics ((vp_self.v() as int) < 0 && (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_ref_signed -> r
@mono T=i16 as ubig_bitand_ref_signed_i16
@method2fn ubig_bitand_ref_signed_i16 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i16(rhs)`
@rewrite `self & rhs_signed . unsigned_abs ( )` => `vp_self.bitand(rhs_signed.unsigned_abs())`
@rewrite `IBig :: from ( self ) & rhs_signed` => `IBig::from(vp_self).bitand(rhs_signed)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_assign_signed
@mono T=i16 as ubig_bitand_assign_signed_i16
@method2fn ubig_bitand_assign_signed_i16 UBig
@rewrite `mem :: take ( self ) . bitand_signed ( rhs )` => `ubig_bitand_signed_i16(mem::take(vp_self), rhs)`
@panics ((old(vp_self).v() as int) < 0 && (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_signed -> r
@mono T=i16 as ubig_bitor_signed_i16
@method2fn ubig_bitor_signed_i16 UBig
@rewrite `IBig :: from ( self ) | IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitor(crate::convert::ibig_from_signed_i16(rhs))`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_ref_signed -> r
@mono T=i16 as ubig_bitor_ref_signed_i16
@method2fn ubig_bitor_ref_signed_i16 UBig
@rewrite `IBig :: from ( self ) | IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitor(crate::convert::ibig_from_signed_i16(rhs))`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_assign_signed
@mono T=i16 as ubig_bitor_assign_signed_i16
@method2fn ubig_bitor_assign_signed_i16 UBig
@rewrite `mem :: take ( self ) . bitor_signed ( rhs )` => `ubig_bitor_signed_i16(mem::take(vp_self), rhs)`
@panics ((old(vp_self).v() as int) < 0 || (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_signed -> r
@mono T=i16 as ubig_bitxor_signed_i16
@method2fn ubig_bitxor_signed_i16 UBig
@rewrite `IBig :: from ( self ) ^ IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitxor(crate::convert::ibig_from_signed_i16(rhs))`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_ref_signed -> r
@mono T=i16 as ubig_bitxor_ref_signed_i16
@method2fn ubig_bitxor_ref_signed_i16 UBig
@rewrite `IBig :: from ( self ) ^ IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitxor(crate::convert::ibig_from_signed_i16(rhs))`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_assign_signed
@mono T=i16 as ubig_bitxor_assign_signed_i16
@method2fn ubig_bitxor_assign_signed_i16 UBig
@rewrite `mem :: take ( self ) . bitxor_signed ( rhs )` => `ubig_bitxor_signed_i16(mem::take(vp_self), rhs)`
@panics (((old(vp_self).v() as int) < 0) != ((rhs as int) < 0))
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_signed -> r
@mono T=i16 as ubig_and_not_signed_i16
@method2fn ubig_and_not_signed_i16 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i16(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_ref_signed -> r
@mono T=i16 as ubig_and_not_ref_signed_i16
@method2fn ubig_and_not_ref_signed_i16 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i16(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn IBig::bitor_primitive -> r
@mono T=i16 as ibig_bitor_primitive_i16
@method2fn ibig_bitor_primitive_i16 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_ref_primitive -> r
@mono T=i16 as ibig_bitor_ref_primitive_i16
@method2fn ibig_bitor_ref_primitive_i16 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_assign_primitive
@mono T=i16 as ibig_bitor_assign_primitive_i16
@method2fn ibig_bitor_assign_primitive_i16 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::bitxor_primitive -> r
@mono T=i16 as ibig_bitxor_primitive_i16
@method2fn ibig_bitxor_primitive_i16 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_ref_primitive -> r
@mono T=i16 as ibig_bitxor_ref_primitive_i16
@method2fn ibig_bitxor_ref_primitive_i16 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_assign_primitive
@mono T=i16 as ibig_bitxor_assign_primitive_i16
@method2fn ibig_bitxor_assign_primitive_i16 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::and_not_primitive -> r
@mono T=i16 as ibig_and_not_primitive_i16
@method2fn ibig_and_not_primitive_i16 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::and_not_ref_primitive -> r
@mono T=i16 as ibig_and_not_ref_primitive_i16
@method2fn ibig_and_not_ref_primitive_i16 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_signed -> r
@mono T=i16 as ibig_bitand_signed_i16
@method2fn ibig_bitand_signed_i16 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i16(rhs)`
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_ref_signed -> r
@mono T=i16 as ibig_bitand_ref_signed_i16
@method2fn ibig_bitand_ref_signed_i16 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i16(rhs)`
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_assign_primitive
@mono T=i16 as ibig_bitand_assign_primitive_i16
@method2fn ibig_bitand_assign_primitive_i16 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn UBig::bitand_signed -> r
@mono T=i32 as ubig_bitand_signed_i32
@method2fn ubig_bitand_signed_i32 UBig
@rewrite `IBig :: from ( self ) & IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitand(crate::convert::ibig_from_signed_i32(rhs))`
@panics ((vp_self.v() as int) < 0 && (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_ref_signed -> r
@mono T=i32 as ubig_bitand_ref_signed_i32
@method2fn ubig_bitand_ref_signed_i32 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i32(rhs)`
@rewrite `self & rhs_signed . unsigned_abs ( )` => `vp_self.bitand(rhs_signed.unsigned_abs())`
@rewrite `IBig :: from ( self ) & rhs_signed` => `IBig::from(vp_self).bitand(rhs_signed)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_assign_signed
@mono T=i32 as ubig_bitand_assign_signed_i32
@method2fn ubig_bitand_assign_signed_i32 UBig
@rewrite `mem :: take ( self ) . bitand_signed ( rhs )` => `ubig_bitand_signed_i32(mem::take(vp_self), rhs)`
@panics ((old(vp_self).v() as int) < 0 && (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_signed -> r
@mono T=i32 as ubig_bitor_signed_i32
@method2fn ubig_bitor_signed_i32 UBig
@rewrite `IBig :: from ( self ) | IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitor(crate::convert::ibig_from_signed_i32(rhs))`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_ref_signed -> r
@mono T=i32 as ubig_bitor_ref_signed_i32
@method2fn ubig_bitor_ref_signed_i32 UBig
@rewrite `IBig :: from ( self ) | IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitor(crate::convert::ibig_from_signed_i32(rhs))`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_assign_signed
@mono T=i32 as ubig_bitor_assign_signed_i32
@method2fn ubig_bitor_assign_signed_i32 UBig
@rewrite `mem :: take ( self ) . bitor_signed ( rhs )` => `ubig_bitor_signed_i32(mem::take(vp_self), rhs)`
@panics ((old(vp_self).v() as int) < 0 || (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_signed -> r
@mono T=i32 as ubig_bitxor_signed_i32
@method2fn ubig_bitxor_signed_i32 UBig
@rewrite `IBig :: from ( self ) ^ IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitxor(crate::convert::ibig_from_signed_i32(rhs))`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_ref_signed -> r
@mono T=i32 as ubig_bitxor_ref_signed_i32
@method2fn ubig_bitxor_ref_signed_i32 UBig
@rewrite `IBig :: from ( self ) ^ IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitxor(crate::convert::ibig_from_signed_i32(rhs))`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_assign_signed
@mono T=i32 as ubig_bitxor_assign_signed_i32
@method2fn ubig_bitxor_assign_signed_i32 UBig
@rewrite `mem :: take ( self ) . bitxor_signed ( rhs )` => `ubig_bitxor_signed_i32(mem::take(vp_self), rhs)`
@panics (((old(vp_self).v() as int) < 0) != ((rhs as int) < 0))
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_signed -> r
@mono T=i32 as ubig_and_not_signed_i32
@method2fn ubig_and_not_signed_i32 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i32(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_ref_signed -> r
@mono T=i32 as ubig_and_not_ref_signed_i32
@method2fn ubig_and_not_ref_signed_i32 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i32(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn IBig::bitor_primitive -> r
@mono T=i32 as ibig_bitor_primitive_i32
@method2fn ibig_bitor_primitive_i32 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_ref_primitive -> r
@mono T=i32 as ibig_bitor_ref_primitive_i32
@method2fn ibig_bitor_ref_primitive_i32 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_assign_primitive
@mono T=i32 as ibig_bitor_assign_primitive_i32
@method2fn ibig_bitor_assign_primitive_i32 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::bitxor_primitive -> r
@mono T=i32 as ibig_bitxor_primitive_i32
@method2fn ibig_bitxor_primitive_i32 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_ref_primitive -> r
@mono T=i32 as ibig_bitxor_ref_primitive_i32
@method2fn ibig_bitxor_ref_primitive_i32 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_assign_primitive
@mono T=i32 as ibig_bitxor_assign_primitive_i32
@method2fn ibig_bitxor_assign_primitive_i32 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::and_not_primitive -> r
@mono T=i32 as ibig_and_not_primitive_i32
@method2fn ibig_and_not_primitive_i32 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::and_not_ref_primitive -> r
@mono T=i32 as ibig_and_not_ref_primitive_i32
@method2fn ibig_and_not_ref_primitive_i32 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_signed -> r
@mono T=i32 as ibig_bitand_signed_i32
@method2fn ibig_bitand_signed_i32 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i32(rhs)`
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_ref_signed -> r
@mono T=i32 as ibig_bitand_ref_signed_i32
@method2fn ibig_bitand_ref_signed_i32 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i32(rhs)`
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_assign_primitive
@mono T=i32 as ibig_bitand_assign_primitive_i32
@method2fn ibig_bitand_assign_primitive_i32 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn UBig::bitand_signed -> r
@mono T=i64 as ubig_bitand_signed_i64
@method2fn ubig_bitand_signed_i64 UBig
@rewrite `IBig :: from ( self ) & IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitand(crate::convert::ibig_from_signed_i64(rhs))`
@panics ((vp_self.v() as int) < 0 && (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_ref_signed -> r
@mono T=i64 as ubig_bitand_ref_signed_i64
@method2fn ubig_bitand_ref_signed_i64 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i64(rhs)`
@rewrite `self & rhs_signed . unsigned_abs ( )` => `vp_self.bitand(rhs_signed.unsigned_abs())`
@rewrite `IBig :: from ( self ) & rhs_signed` => `IBig::from(vp_self).bitand(rhs_signed)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_assign_signed
@mono T=i64 as ubig_bitand_assign_signed_i64
@method2fn ubig_bitand_assign_signed_i64 UBig
@rewrite `mem :: take ( self ) . bitand_signed ( rhs )` => `ubig_bitand_signed_i64(mem::take(vp_self), rhs)`
@panics ((old(vp_self).v() as int) < 0 && (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_signed -> r
@mono T=i64 as ubig_bitor_signed_i64
@method2fn ubig_bitor_signed_i64 UBig
@rewrite `IBig :: from ( self ) | IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitor(crate::convert::ibig_from_signed_i64(rhs))`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_ref_signed -> r
@mono T=i64 as ubig_bitor_ref_signed_i64
@method2fn ubig_bitor_ref_signed_i64 UBig
@rewrite `IBig :: from ( self ) | IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitor(crate::convert::ibig_from_signed_i64(rhs))`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_assign_signed
@mono T=i64 as ubig_bitor_assign_signed_i64
@method2fn ubig_bitor_assign_signed_i64 UBig
@rewrite `mem :: take ( self ) . bitor_signed ( rhs )` => `ubig_bitor_signed_i64(mem::take(vp_self), rhs)`
@panics ((old(vp_self).v() as int) < 0 || (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_signed -> r
@mono T=i64 as ubig_bitxor_signed_i64
@method2fn ubig_bitxor_signed_i64 UBig
@rewrite `IBig :: from ( self ) ^ IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitxor(crate::convert::ibig_from_signed_i64(rhs))`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_ref_signed -> r
@mono T=i64 as ubig_bitxor_ref_signed_i64
@method2fn ubig_bitxor_ref_signed_i64 UBig
@rewrite `IBig :: from ( self ) ^ IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitxor(crate::convert::ibig_from_signed_i64(rhs))`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_assign_signed
@mono T=i64 as ubig_bitxor_assign_signed_i64
@method2fn ubig_bitxor_assign_signed_i64 UBig
@rewrite `mem :: take ( self ) . bitxor_signed ( rhs )` => `ubig_bitxor_signed_i64(mem::take(vp_self), rhs)`
@panics (((old(vp_self).v() as int) < 0) != ((rhs as int) < 0))
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_signed -> r
@mono T=i64 as ubig_and_not_signed_i64
@method2fn ubig_and_not_signed_i64 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i64(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_ref_signed -> r
@mono T=i64 as ubig_and_not_ref_signed_i64
@method2fn ubig_and_not_ref_signed_i64 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i64(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn IBig::bitor_primitive -> r
@mono T=i64 as ibig_bitor_primitive_i64
@method2fn ibig_bitor_primitive_i64 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_ref_primitive -> r
@mono T=i64 as ibig_bitor_ref_primitive_i64
@method2fn ibig_bitor_ref_primitive_i64 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_assign_primitive
@mono T=i64 as ibig_bitor_assign_primitive_i64
@method2fn ibig_bitor_assign_primitive_i64 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::bitxor_primitive -> r
@mono T=i64 as ibig_bitxor_primitive_i64
@method2fn ibig_bitxor_primitive_i64 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_ref_primitive -> r
@mono T=i64 as ibig_bitxor_ref_primitive_i64
@method2fn ibig_bitxor_ref_primitive_i64 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_assign_primitive
@mono T=i64 as ibig_bitxor_assign_primitive_i64
@method2fn ibig_bitxor_assign_primitive_i64 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::and_not_primitive -> r
@mono T=i64 as ibig_and_not_primitive_i64
@method2fn ibig_and_not_primitive_i64 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::and_not_ref_primitive -> r
@mono T=i64 as ibig_and_not_ref_primitive_i64
@method2fn ibig_and_not_ref_primitive_i64 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_signed -> r
@mono T=i64 as ibig_bitand_signed_i64
@method2fn ibig_bitand_signed_i64 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i64(rhs)`
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_ref_signed -> r
@mono T=i64 as ibig_bitand_ref_signed_i64
@method2fn ibig_bitand_ref_signed_i64 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i64(rhs)`
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_assign_primitive
@mono T=i64 as ibig_bitand_assign_primitive_i64
@method2fn ibig_bitand_assign_primitive_i64 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn UBig::bitand_signed -> r
@mono T=i128 as ubig_bitand_signed_i128
@method2fn ubig_bitand_signed_i128 UBig
@rewrite `IBig :: from ( self ) & IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitand(crate::convert::ibig_from_signed_i128(rhs))`
@panics ((vp_self.v() as int) < 0 && (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_ref_signed -> r
@mono T=i128 as ubig_bitand_ref_signed_i128
@method2fn ubig_bitand_ref_signed_i128 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i128(rhs)`
@rewrite `self & rhs_signed . unsigned_abs ( )` => `vp_self.bitand(rhs_signed.unsigned_abs())`
@rewrite `IBig :: from ( self ) & rhs_signed` => `IBig::from(vp_self).bitand(rhs_signed)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_assign_signed
@mono T=i128 as ubig_bitand_assign_signed_i128
@method2fn ubig_bitand_assign_signed_i128 UBig
@rewrite `mem :: take ( self ) . bitand_signed ( rhs )` => `ubig_bitand_signed_i128(mem::take(vp_self), rhs)`
@panics ((old(vp_self).v() as int) < 0 && (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_signed -> r
@mono T=i128 as ubig_bitor_signed_i128
@method2fn ubig_bitor_signed_i128 UBig
@rewrite `IBig :: from ( self ) | IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitor(crate::convert::ibig_from_signed_i128(rhs))`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_ref_signed -> r
@mono T=i128 as ubig_bitor_ref_signed_i128
@method2fn ubig_bitor_ref_signed_i128 UBig
@rewrite `IBig :: from ( self ) | IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitor(crate::convert::ibig_from_signed_i128(rhs))`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_assign_signed
@mono T=i128 as ubig_bitor_assign_signed_i128
@method2fn ubig_bitor_assign_signed_i128 UBig
@rewrite `mem :: take ( self ) . bitor_signed ( rhs )` => `ubig_bitor_signed_i128(mem::take(vp_self), rhs)`
@panics ((old(vp_self).v() as int) < 0 || (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_signed -> r
@mono T=i128 as ubig_bitxor_signed_i128
@method2fn ubig_bitxor_signed_i128 UBig
@rewrite `IBig :: from ( self ) ^ IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitxor(crate::convert::ibig_from_signed_i128(rhs))`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_ref_signed -> r
@mono T=i128 as ubig_bitxor_ref_signed_i128
@method2fn ubig_bitxor_ref_signed_i128 UBig
@rewrite `IBig :: from ( self ) ^ IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitxor(crate::convert::ibig_from_signed_i128(rhs))`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_assign_signed
@mono T=i128 as ubig_bitxor_assign_signed_i128
@method2fn ubig_bitxor_assign_signed_i128 UBig
@rewrite `mem :: take ( self ) . bitxor_signed ( rhs )` => `ubig_bitxor_signed_i128(mem::take(vp_self), rhs)`
@panics (((old(vp_self).v() as int) < 0) != ((rhs as int) < 0))
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_signed -> r
@mono T=i128 as ubig_and_not_signed_i128
@method2fn ubig_and_not_signed_i128 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i128(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_ref_signed -> r
@mono T=i128 as ubig_and_not_ref_signed_i128
@method2fn ubig_and_not_ref_signed_i128 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i128(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn IBig::bitor_primitive -> r
@mono T=i128 as ibig_bitor_primitive_i128
@method2fn ibig_bitor_primitive_i128 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_ref_primitive -> r
@mono T=i128 as ibig_bitor_ref_primitive_i128
@method2fn ibig_bitor_ref_primitive_i128 IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_assign_primitive
@mono T=i128 as ibig_bitor_assign_primitive_i128
@method2fn ibig_bitor_assign_primitive_i128 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::bitxor_primitive -> r
@mono T=i128 as ibig_bitxor_primitive_i128
@method2fn ibig_bitxor_primitive_i128 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_ref_primitive -> r
@mono T=i128 as ibig_bitxor_ref_primitive_i128
@method2fn ibig_bitxor_ref_primitive_i128 IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_assign_primitive
@mono T=i128 as ibig_bitxor_assign_primitive_i128
@method2fn ibig_bitxor_assign_primitive_i128 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::and_not_primitive -> r
@mono T=i128 as ibig_and_not_primitive_i128
@method2fn ibig_and_not_primitive_i128 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::and_not_ref_primitive -> r
@mono T=i128 as ibig_and_not_ref_primitive_i128
@method2fn ibig_and_not_ref_primitive_i128 IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_signed -> r
@mono T=i128 as ibig_bitand_signed_i128
@method2fn ibig_bitand_signed_i128 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i128(rhs)`
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_ref_signed -> r
@mono T=i128 as ibig_bitand_ref_signed_i128
@method2fn ibig_bitand_ref_signed_i128 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i128(rhs)`
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_assign_primitive
@mono T=i128 as ibig_bitand_assign_primitive_i128
@method2fn ibig_bitand_assign_primitive_i128 IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn UBig::bitand_signed -> r
@mono T=isize as ubig_bitand_signed_isize
@method2fn ubig_bitand_signed_isize UBig
@rewrite `IBig :: from ( self ) & IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitand(crate::convert::ibig_from_signed_isize(rhs))`
@panics ((vp_self.v() as int) < 0 && (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_ref_signed -> r
@mono T=isize as ubig_bitand_ref_signed_isize
@method2fn ubig_bitand_ref_signed_isize UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_isize(rhs)`
@rewrite `self & rhs_signed . unsigned_abs ( )` => `vp_self.bitand(rhs_signed.unsigned_abs())`
@rewrite `IBig :: from ( self ) & rhs_signed` => `IBig::from(vp_self).bitand(rhs_signed)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitand_assign_signed
@mono T=isize as ubig_bitand_assign_signed_isize
@method2fn ubig_bitand_assign_signed_isize UBig
@rewrite `mem :: take ( self ) . bitand_signed ( rhs )` => `ubig_bitand_signed_isize(mem::take(vp_self), rhs)`
@panics ((old(vp_self).v() as int) < 0 && (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_signed -> r
@mono T=isize as ubig_bitor_signed_isize
@method2fn ubig_bitor_signed_isize UBig
@rewrite `IBig :: from ( self ) | IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitor(crate::convert::ibig_from_signed_isize(rhs))`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_ref_signed -> r
@mono T=isize as ubig_bitor_ref_signed_isize
@method2fn ubig_bitor_ref_signed_isize UBig
@rewrite `IBig :: from ( self ) | IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitor(crate::convert::ibig_from_signed_isize(rhs))`
@panics ((vp_self.v() as int) < 0 || (rhs as int) < 0)
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitor_assign_signed
@mono T=isize as ubig_bitor_assign_signed_isize
@method2fn ubig_bitor_assign_signed_isize UBig
@rewrite `mem :: take ( self ) . bitor_signed ( rhs )` => `ubig_bitor_signed_isize(mem::take(vp_self), rhs)`
@panics ((old(vp_self).v() as int) < 0 || (rhs as int) < 0)
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_signed -> r
@mono T=isize as ubig_bitxor_signed_isize
@method2fn ubig_bitxor_signed_isize UBig
@rewrite `IBig :: from ( self ) ^ IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitxor(crate::convert::ibig_from_signed_isize(rhs))`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_ref_signed -> r
@mono T=isize as ubig_bitxor_ref_signed_isize
@method2fn ubig_bitxor_ref_signed_isize UBig
@rewrite `IBig :: from ( self ) ^ IBig :: from_signed ( rhs )` => `IBig::from(vp_self).bitxor(crate::convert::ibig_from_signed_isize(rhs))`
@panics (((vp_self.v() as int) < 0) != ((rhs as int) < 0))
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::bitxor_assign_signed
@mono T=isize as ubig_bitxor_assign_signed_isize
@method2fn ubig_bitxor_assign_signed_isize UBig
@rewrite `mem :: take ( self ) . bitxor_signed ( rhs )` => `ubig_bitxor_signed_isize(mem::take(vp_self), rhs)`
@panics (((old(vp_self).v() as int) < 0) != ((rhs as int) < 0))
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_signed -> r
@mono T=isize as ubig_and_not_signed_isize
@method2fn ubig_and_not_signed_isize UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_isize(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn UBig::and_not_ref_signed -> r
@mono T=isize as ubig_and_not_ref_signed_isize
@method2fn ubig_and_not_ref_signed_isize UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_isize(rhs)`
@panics ((vp_self.v() as int) < 0 && (rhs as int) >= 0)
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@start
proof { lemma_signs_all(); }
@fn IBig::bitor_primitive -> r
@mono T=isize as ibig_bitor_primitive_isize
@method2fn ibig_bitor_primitive_isize IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_ref_primitive -> r
@mono T=isize as ibig_bitor_ref_primitive_isize
@method2fn ibig_bitor_ref_primitive_isize IBig
    requires vp_self.wf()
    ensures r.wf(), is_or((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitor_assign_primitive
@mono T=isize as ibig_bitor_assign_primitive_isize
@method2fn ibig_bitor_assign_primitive_isize IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_or((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::bitxor_primitive -> r
@mono T=isize as ibig_bitxor_primitive_isize
@method2fn ibig_bitxor_primitive_isize IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_ref_primitive -> r
@mono T=isize as ibig_bitxor_ref_primitive_isize
@method2fn ibig_bitxor_ref_primitive_isize IBig
    requires vp_self.wf()
    ensures r.wf(), is_xor((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitxor_assign_primitive
@mono T=isize as ibig_bitxor_assign_primitive_isize
@method2fn ibig_bitxor_assign_primitive_isize IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_xor((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@fn IBig::and_not_primitive -> r
@mono T=isize as ibig_and_not_primitive_isize
@method2fn ibig_and_not_primitive_isize IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::and_not_ref_primitive -> r
@mono T=isize as ibig_and_not_ref_primitive_isize
@method2fn ibig_and_not_ref_primitive_isize IBig
    requires vp_self.wf()
    ensures r.wf(), is_andnot((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_signed -> r
@mono T=isize as ibig_bitand_signed_isize
@method2fn ibig_bitand_signed_isize IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_isize(rhs)`
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_ref_signed -> r
@mono T=isize as ibig_bitand_ref_signed_isize
@method2fn ibig_bitand_ref_signed_isize IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_isize(rhs)`
    requires vp_self.wf()
    ensures r.wf(), is_and((r.v() as int), (vp_self.v() as int), (rhs as int))
@fn IBig::bitand_assign_primitive
@mono T=isize as ibig_bitand_assign_primitive_isize
@method2fn ibig_bitand_assign_primitive_isize IBig
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), is_and((final(vp_self).v() as int), (old(vp_self).v() as int), (rhs as int))
@file div_ops.rs
@mod
/// truncated division of a nonnegative number by a nonnegative one is the floor division
pub proof fn lemma_trunc_nn(a: int, b: int) ensures a >= 0 && b > 0 ==> tq(a, b) == a / b && tr(a, b) == a % b && 0 <= tr(a, b) < b && tq(a, b) >= 0
{ if a >= 0 && b > 0 { lemma_trunc(a, b); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a, b); vstd::arithmetic::div_mod::lemma_mod_bound(a, b); } }
pub proof fn lemma_trunc_rem_fits(a: int, b: int) ensures b != 0 ==> (if b < 0 { b } else { -b }) < tr(a, b) && tr(a, b) < (if b < 0 { -b } else { b }), b != 0 && a >= 0 ==> tr(a, b) >= 0 && tr(a, b) == a % (if b < 0 { -b } else { b })
{ if b != 0 { lemma_trunc(a, b); } }
pub proof fn lemma_trunc_euclid_nn(a: int, b: int) ensures b != 0 && a >= 0 ==> tr(a, b) == a % b
{ if b != 0 { lemma_trunc(a, b); lemma_euclid(a, b); } }
pub proof fn lemma_euclid_rem_fits(a: int, b: int) ensures b != 0 ==> 0 <= a % b && a % b < (if b < 0 { -b } else { b })
{ }
@fn UBig::div_unsigned -> r
@mono T=u8 as ubig_div_unsigned_u8
@method2fn ubig_div_unsigned_u8 UBig
@rewrite `self / UBig :: from_unsigned ( rhs )` => `vp_self.div(crate::convert::ubig_from_unsigned_u8(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_ref_unsigned -> r
@mono T=u8 as ubig_div_ref_unsigned_u8
@method2fn ubig_div_ref_unsigned_u8 UBig
@rewrite `self / UBig :: from_unsigned ( rhs )` => `vp_self.div(crate::convert::ubig_from_unsigned_u8(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_assign_unsigned
@mono T=u8 as ubig_div_assign_unsigned_u8
@method2fn ubig_div_assign_unsigned_u8 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u8(rhs)`
@panics (rhs as int) == 0 || tq((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(old(vp_self).v() as int, rhs as int); }
@fn IBig::div_primitive -> r
@mono T=u8 as ibig_div_primitive_u8
@method2fn ibig_div_primitive_u8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_ref_primitive -> r
@mono T=u8 as ibig_div_ref_primitive_u8
@method2fn ibig_div_ref_primitive_u8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_assign_primitive
@mono T=u8 as ibig_div_assign_primitive_u8
@method2fn ibig_div_assign_primitive_u8 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_euclid_primitive -> r
@mono T=u8 as ibig_div_euclid_primitive_u8
@method2fn ibig_div_euclid_primitive_u8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::div_euclid_ref_primitive -> r
@mono T=u8 as ibig_div_euclid_ref_primitive_u8
@method2fn ibig_div_euclid_ref_primitive_u8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::rem_euclid_primitive -> r
@mono T=u8 as ibig_rem_euclid_primitive_u8
@method2fn ibig_rem_euclid_primitive_u8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_euclid_ref_primitive -> r
@mono T=u8 as ibig_rem_euclid_ref_primitive_u8
@method2fn ibig_rem_euclid_ref_primitive_u8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_primitive -> r
@mono T=u8 as ibig_div_rem_euclid_primitive_u8
@method2fn ibig_div_rem_euclid_primitive_u8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_ref_primitive -> r
@mono T=u8 as ibig_div_rem_euclid_ref_primitive_u8
@method2fn ibig_div_rem_euclid_ref_primitive_u8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_assign_primitive
@mono T=u8 as ibig_rem_assign_primitive_u8
@method2fn ibig_rem_assign_primitive_u8 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@fn UBig::rem_unsigned -> r
@mono T=u8 as ubig_rem_unsigned_u8
@method2fn ubig_rem_unsigned_u8 UBig
@rewrite `( self % UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u8(&vp_self.rem(crate::convert::ubig_from_unsigned_u8(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_unsigned -> r
@mono T=u8 as ubig_div_rem_unsigned_u8
@method2fn ubig_div_rem_unsigned_u8 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u8(rhs)`
@rewrite `r . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u8(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn IBig::rem_unsigned -> r
@mono T=u8 as ibig_rem_unsigned_u8
@method2fn ibig_rem_unsigned_u8 IBig
@rewrite `self % IBig :: from_unsigned ( rhs )` => `vp_self.rem(crate::convert::ibig_from_unsigned_u8(rhs))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn IBig::div_rem_unsigned -> r
@mono T=u8 as ibig_div_rem_unsigned_u8
@method2fn ibig_div_rem_unsigned_u8 IBig
@rewrite `IBig :: from_unsigned ( rhs )` => `crate::convert::ibig_from_unsigned_u8(rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn UBig::rem_ref_unsigned -> r
@mono T=u8 as ubig_rem_ref_unsigned_u8
@method2fn ubig_rem_ref_unsigned_u8 UBig
@rewrite `( self % UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u8(&vp_self.rem(crate::convert::ubig_from_unsigned_u8(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_ref_unsigned -> r
@mono T=u8 as ubig_div_rem_ref_unsigned_u8
@method2fn ubig_div_rem_ref_unsigned_u8 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u8(rhs)`
@rewrite `r . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u8(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn IBig::rem_ref_unsigned -> r
@mono T=u8 as ibig_rem_ref_unsigned_u8
@method2fn ibig_rem_ref_unsigned_u8 IBig
@rewrite `self % IBig :: from_unsigned ( rhs )` => `vp_self.rem(crate::convert::ibig_from_unsigned_u8(rhs))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn IBig::div_rem_ref_unsigned -> r
@mono T=u8 as ibig_div_rem_ref_unsigned_u8
@method2fn ibig_div_rem_ref_unsigned_u8 IBig
@rewrite `IBig :: from_unsigned ( rhs )` => `crate::convert::ibig_from_unsigned_u8(rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn UBig::rem_assign_unsigned
@mono T=u8 as ubig_rem_assign_unsigned_u8
@method2fn ubig_rem_assign_unsigned_u8 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u8(rhs)`
@panics (rhs as int) == 0 || tr((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(old(vp_self).v() as int, rhs as int); }
@fn UBig::div_unsigned -> r
@mono T=u16 as ubig_div_unsigned_u16
@method2fn ubig_div_unsigned_u16 UBig
@rewrite `self / UBig :: from_unsigned ( rhs )` => `vp_self.div(crate::convert::ubig_from_unsigned_u16(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_ref_unsigned -> r
@mono T=u16 as ubig_div_ref_unsigned_u16
@method2fn ubig_div_ref_unsigned_u16 UBig
@rewrite `self / UBig :: from_unsigned ( rhs )` => `vp_self.div(crate::convert::ubig_from_unsigned_u16(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_assign_unsigned
@mono T=u16 as ubig_div_assign_unsigned_u16
@method2fn ubig_div_assign_unsigned_u16 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u16(rhs)`
@panics (rhs as int) == 0 || tq((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(old(vp_self).v() as int, rhs as int); }
@fn IBig::div_primitive -> r
@mono T=u16 as ibig_div_primitive_u16
@method2fn ibig_div_primitive_u16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_ref_primitive -> r
@mono T=u16 as ibig_div_ref_primitive_u16
@method2fn ibig_div_ref_primitive_u16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_assign_primitive
@mono T=u16 as ibig_div_assign_primitive_u16
@method2fn ibig_div_assign_primitive_u16 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_euclid_primitive -> r
@mono T=u16 as ibig_div_euclid_primitive_u16
@method2fn ibig_div_euclid_primitive_u16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::div_euclid_ref_primitive -> r
@mono T=u16 as ibig_div_euclid_ref_primitive_u16
@method2fn ibig_div_euclid_ref_primitive_u16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::rem_euclid_primitive -> r
@mono T=u16 as ibig_rem_euclid_primitive_u16
@method2fn ibig_rem_euclid_primitive_u16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_euclid_ref_primitive -> r
@mono T=u16 as ibig_rem_euclid_ref_primitive_u16
@method2fn ibig_rem_euclid_ref_primitive_u16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_primitive -> r
@mono T=u16 as ibig_div_rem_euclid_primitive_u16
@method2fn ibig_div_rem_euclid_primitive_u16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_ref_primitive -> r
@mono T=u16 as ibig_div_rem_euclid_ref_primitive_u16
@method2fn ibig_div_rem_euclid_ref_primitive_u16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_assign_primitive
@mono T=u16 as ibig_rem_assign_primitive_u16
@method2fn ibig_rem_assign_primitive_u16 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@fn UBig::rem_unsigned -> r
@mono T=u16 as ubig_rem_unsigned_u16
@method2fn ubig_rem_unsigned_u16 UBig
@rewrite `( self % UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u16(&vp_self.rem(crate::convert::ubig_from_unsigned_u16(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_unsigned -> r
@mono T=u16 as ubig_div_rem_unsigned_u16
@method2fn ubig_div_rem_unsigned_u16 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u16(rhs)`
@rewrite `r . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u16(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn IBig::rem_unsigned -> r
@mono T=u16 as ibig_rem_unsigned_u16
@method2fn ibig_rem_unsigned_u16 IBig
@rewrite `self % IBig :: from_unsigned ( rhs )` => `vp_self.rem(crate::convert::ibig_from_unsigned_u16(rhs))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn IBig::div_rem_unsigned -> r
@mono T=u16 as ibig_div_rem_unsigned_u16
@method2fn ibig_div_rem_unsigned_u16 IBig
@rewrite `IBig :: from_unsigned ( rhs )` => `crate::convert::ibig_from_unsigned_u16(rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn UBig::rem_ref_unsigned -> r
@mono T=u16 as ubig_rem_ref_unsigned_u16
@method2fn ubig_rem_ref_unsigned_u16 UBig
@rewrite `( self % UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u16(&vp_self.rem(crate::convert::ubig_from_unsigned_u16(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_ref_unsigned -> r
@mono T=u16 as ubig_div_rem_ref_unsigned_u16
@method2fn ubig_div_rem_ref_unsigned_u16 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u16(rhs)`
@rewrite `r . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u16(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn IBig::rem_ref_unsigned -> r
@mono T=u16 as ibig_rem_ref_unsigned_u16
@method2fn ibig_rem_ref_unsigned_u16 IBig
@rewrite `self % IBig :: from_unsigned ( rhs )` => `vp_self.rem(crate::convert::ibig_from_unsigned_u16(rhs))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn IBig::div_rem_ref_unsigned -> r
@mono T=u16 as ibig_div_rem_ref_unsigned_u16
@method2fn ibig_div_rem_ref_unsigned_u16 IBig
@rewrite `IBig :: from_unsigned ( rhs )` => `crate::convert::ibig_from_unsigned_u16(rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn UBig::rem_assign_unsigned
@mono T=u16 as ubig_rem_assign_unsigned_u16
@method2fn ubig_rem_assign_unsigned_u16 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u16(rhs)`
@panics (rhs as int) == 0 || tr((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(old(vp_self).v() as int, rhs as int); }
@fn UBig::div_unsigned -> r
@mono T=u32 as ubig_div_unsigned_u32
@method2fn ubig_div_unsigned_u32 UBig
@rewrite `self / UBig :: from_unsigned ( rhs )` => `vp_self.div(crate::convert::ubig_from_unsigned_u32(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_ref_unsigned -> r
@mono T=u32 as ubig_div_ref_unsigned_u32
@method2fn ubig_div_ref_unsigned_u32 UBig
@rewrite `self / UBig :: from_unsigned ( rhs )` => `vp_self.div(crate::convert::ubig_from_unsigned_u32(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_assign_unsigned
@mono T=u32 as ubig_div_assign_unsigned_u32
@method2fn ubig_div_assign_unsigned_u32 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u32(rhs)`
@panics (rhs as int) == 0 || tq((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(old(vp_self).v() as int, rhs as int); }
@fn IBig::div_primitive -> r
@mono T=u32 as ibig_div_primitive_u32
@method2fn ibig_div_primitive_u32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_ref_primitive -> r
@mono T=u32 as ibig_div_ref_primitive_u32
@method2fn ibig_div_ref_primitive_u32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_assign_primitive
@mono T=u32 as ibig_div_assign_primitive_u32
@method2fn ibig_div_assign_primitive_u32 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_euclid_primitive -> r
@mono T=u32 as ibig_div_euclid_primitive_u32
@method2fn ibig_div_euclid_primitive_u32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::div_euclid_ref_primitive -> r
@mono T=u32 as ibig_div_euclid_ref_primitive_u32
@method2fn ibig_div_euclid_ref_primitive_u32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::rem_euclid_primitive -> r
@mono T=u32 as ibig_rem_euclid_primitive_u32
@method2fn ibig_rem_euclid_primitive_u32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_euclid_ref_primitive -> r
@mono T=u32 as ibig_rem_euclid_ref_primitive_u32
@method2fn ibig_rem_euclid_ref_primitive_u32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_primitive -> r
@mono T=u32 as ibig_div_rem_euclid_primitive_u32
@method2fn ibig_div_rem_euclid_primitive_u32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_ref_primitive -> r
@mono T=u32 as ibig_div_rem_euclid_ref_primitive_u32
@method2fn ibig_div_rem_euclid_ref_primitive_u32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_assign_primitive
@mono T=u32 as ibig_rem_assign_primitive_u32
@method2fn ibig_rem_assign_primitive_u32 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@fn UBig::rem_unsigned -> r
@mono T=u32 as ubig_rem_unsigned_u32
@method2fn ubig_rem_unsigned_u32 UBig
@rewrite `( self % UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u32(&vp_self.rem(crate::convert::ubig_from_unsigned_u32(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_unsigned -> r
@mono T=u32 as ubig_div_rem_unsigned_u32
@method2fn ubig_div_rem_unsigned_u32 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u32(rhs)`
@rewrite `r . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u32(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn IBig::rem_unsigned -> r
@mono T=u32 as ibig_rem_unsigned_u32
@method2fn ibig_rem_unsigned_u32 IBig
@rewrite `self % IBig :: from_unsigned ( rhs )` => `vp_self.rem(crate::convert::ibig_from_unsigned_u32(rhs))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn IBig::div_rem_unsigned -> r
@mono T=u32 as ibig_div_rem_unsigned_u32
@method2fn ibig_div_rem_unsigned_u32 IBig
@rewrite `IBig :: from_unsigned ( rhs )` => `crate::convert::ibig_from_unsigned_u32(rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn UBig::rem_ref_unsigned -> r
@mono T=u32 as ubig_rem_ref_unsigned_u32
@method2fn ubig_rem_ref_unsigned_u32 UBig
@rewrite `( self % UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u32(&vp_self.rem(crate::convert::ubig_from_unsigned_u32(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_ref_unsigned -> r
@mono T=u32 as ubig_div_rem_ref_unsigned_u32
@method2fn ubig_div_rem_ref_unsigned_u32 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u32(rhs)`
@rewrite `r . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u32(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn IBig::rem_ref_unsigned -> r
@mono T=u32 as ibig_rem_ref_unsigned_u32
@method2fn ibig_rem_ref_unsigned_u32 IBig
@rewrite `self % IBig :: from_unsigned ( rhs )` => `vp_self.rem(crate::convert::ibig_from_unsigned_u32(rhs))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn IBig::div_rem_ref_unsigned -> r
@mono T=u32 as ibig_div_rem_ref_unsigned_u32
@method2fn ibig_div_rem_ref_unsigned_u32 IBig
@rewrite `IBig :: from_unsigned ( rhs )` => `crate::convert::ibig_from_unsigned_u32(rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn UBig::rem_assign_unsigned
@mono T=u32 as ubig_rem_assign_unsigned_u32
@method2fn ubig_rem_assign_unsigned_u32 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u32(rhs)`
@panics (rhs as int) == 0 || tr((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(old(vp_self).v() as int, rhs as int); }
@fn UBig::div_unsigned -> r
@mono T=u64 as ubig_div_unsigned_u64
@method2fn ubig_div_unsigned_u64 UBig
@rewrite `self / UBig :: from_unsigned ( rhs )` => `vp_self.div(crate::convert::ubig_from_unsigned_u64(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_ref_unsigned -> r
@mono T=u64 as ubig_div_ref_unsigned_u64
@method2fn ubig_div_ref_unsigned_u64 UBig
@rewrite `self / UBig :: from_unsigned ( rhs )` => `vp_self.div(crate::convert::ubig_from_unsigned_u64(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_assign_unsigned
@mono T=u64 as ubig_div_assign_unsigned_u64
@method2fn ubig_div_assign_unsigned_u64 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u64(rhs)`
@panics (rhs as int) == 0 || tq((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(old(vp_self).v() as int, rhs as int); }
@fn IBig::div_primitive -> r
@mono T=u64 as ibig_div_primitive_u64
@method2fn ibig_div_primitive_u64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_ref_primitive -> r
@mono T=u64 as ibig_div_ref_primitive_u64
@method2fn ibig_div_ref_primitive_u64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_assign_primitive
@mono T=u64 as ibig_div_assign_primitive_u64
@method2fn ibig_div_assign_primitive_u64 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_euclid_primitive -> r
@mono T=u64 as ibig_div_euclid_primitive_u64
@method2fn ibig_div_euclid_primitive_u64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::div_euclid_ref_primitive -> r
@mono T=u64 as ibig_div_euclid_ref_primitive_u64
@method2fn ibig_div_euclid_ref_primitive_u64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::rem_euclid_primitive -> r
@mono T=u64 as ibig_rem_euclid_primitive_u64
@method2fn ibig_rem_euclid_primitive_u64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_euclid_ref_primitive -> r
@mono T=u64 as ibig_rem_euclid_ref_primitive_u64
@method2fn ibig_rem_euclid_ref_primitive_u64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_primitive -> r
@mono T=u64 as ibig_div_rem_euclid_primitive_u64
@method2fn ibig_div_rem_euclid_primitive_u64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_ref_primitive -> r
@mono T=u64 as ibig_div_rem_euclid_ref_primitive_u64
@method2fn ibig_div_rem_euclid_ref_primitive_u64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_assign_primitive
@mono T=u64 as ibig_rem_assign_primitive_u64
@method2fn ibig_rem_assign_primitive_u64 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@fn UBig::rem_unsigned -> r
@mono T=u64 as ubig_rem_unsigned_u64
@method2fn ubig_rem_unsigned_u64 UBig
@rewrite `( self % UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u64(&vp_self.rem(crate::convert::ubig_from_unsigned_u64(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_unsigned -> r
@mono T=u64 as ubig_div_rem_unsigned_u64
@method2fn ubig_div_rem_unsigned_u64 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u64(rhs)`
@rewrite `r . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u64(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn IBig::rem_unsigned -> r
@mono T=u64 as ibig_rem_unsigned_u64
@method2fn ibig_rem_unsigned_u64 IBig
@rewrite `self % IBig :: from_unsigned ( rhs )` => `vp_self.rem(crate::convert::ibig_from_unsigned_u64(rhs))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn IBig::div_rem_unsigned -> r
@mono T=u64 as ibig_div_rem_unsigned_u64
@method2fn ibig_div_rem_unsigned_u64 IBig
@rewrite `IBig :: from_unsigned ( rhs )` => `crate::convert::ibig_from_unsigned_u64(rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn UBig::rem_ref_unsigned -> r
@mono T=u64 as ubig_rem_ref_unsigned_u64
@method2fn ubig_rem_ref_unsigned_u64 UBig
@rewrite `( self % UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u64(&vp_self.rem(crate::convert::ubig_from_unsigned_u64(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_ref_unsigned -> r
@mono T=u64 as ubig_div_rem_ref_unsigned_u64
@method2fn ubig_div_rem_ref_unsigned_u64 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u64(rhs)`
@rewrite `r . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u64(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn IBig::rem_ref_unsigned -> r
@mono T=u64 as ibig_rem_ref_unsigned_u64
@method2fn ibig_rem_ref_unsigned_u64 IBig
@rewrite `self % IBig :: from_unsigned ( rhs )` => `vp_self.rem(crate::convert::ibig_from_unsigned_u64(rhs))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn IBig::div_rem_ref_unsigned -> r
@mono T=u64 as ibig_div_rem_ref_unsigned_u64
@method2fn ibig_div_rem_ref_unsigned_u64 IBig
@rewrite `IBig :: from_unsigned ( rhs )` => `crate::convert::ibig_from_unsigned_u64(rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn UBig::rem_assign_unsigned
@mono T=u64 as ubig_rem_assign_unsigned_u64
@method2fn ubig_rem_assign_unsigned_u64 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u64(rhs)`
@panics (rhs as int) == 0 || tr((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(old(vp_self).v() as int, rhs as int); }
@fn UBig::div_unsigned -> r
@mono T=u128 as ubig_div_unsigned_u128
@method2fn ubig_div_unsigned_u128 UBig
@rewrite `self / UBig :: from_unsigned ( rhs )` => `vp_self.div(crate::convert::ubig_from_unsigned_u128(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_ref_unsigned -> r
@mono T=u128 as ubig_div_ref_unsigned_u128
@method2fn ubig_div_ref_unsigned_u128 UBig
@rewrite `self / UBig :: from_unsigned ( rhs )` => `vp_self.div(crate::convert::ubig_from_unsigned_u128(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_assign_unsigned
@mono T=u128 as ubig_div_assign_unsigned_u128
@method2fn ubig_div_assign_unsigned_u128 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u128(rhs)`
@panics (rhs as int) == 0 || tq((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(old(vp_self).v() as int, rhs as int); }
@fn IBig::div_primitive -> r
@mono T=u128 as ibig_div_primitive_u128
@method2fn ibig_div_primitive_u128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_ref_primitive -> r
@mono T=u128 as ibig_div_ref_primitive_u128
@method2fn ibig_div_ref_primitive_u128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_assign_primitive
@mono T=u128 as ibig_div_assign_primitive_u128
@method2fn ibig_div_assign_primitive_u128 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_euclid_primitive -> r
@mono T=u128 as ibig_div_euclid_primitive_u128
@method2fn ibig_div_euclid_primitive_u128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::div_euclid_ref_primitive -> r
@mono T=u128 as ibig_div_euclid_ref_primitive_u128
@method2fn ibig_div_euclid_ref_primitive_u128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::rem_euclid_primitive -> r
@mono T=u128 as ibig_rem_euclid_primitive_u128
@method2fn ibig_rem_euclid_primitive_u128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_euclid_ref_primitive -> r
@mono T=u128 as ibig_rem_euclid_ref_primitive_u128
@method2fn ibig_rem_euclid_ref_primitive_u128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_primitive -> r
@mono T=u128 as ibig_div_rem_euclid_primitive_u128
@method2fn ibig_div_rem_euclid_primitive_u128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_ref_primitive -> r
@mono T=u128 as ibig_div_rem_euclid_ref_primitive_u128
@method2fn ibig_div_rem_euclid_ref_primitive_u128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_assign_primitive
@mono T=u128 as ibig_rem_assign_primitive_u128
@method2fn ibig_rem_assign_primitive_u128 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@fn UBig::rem_unsigned -> r
@mono T=u128 as ubig_rem_unsigned_u128
@method2fn ubig_rem_unsigned_u128 UBig
@rewrite `( self % UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u128(&vp_self.rem(crate::convert::ubig_from_unsigned_u128(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_unsigned -> r
@mono T=u128 as ubig_div_rem_unsigned_u128
@method2fn ubig_div_rem_unsigned_u128 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u128(rhs)`
@rewrite `r . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u128(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn IBig::rem_unsigned -> r
@mono T=u128 as ibig_rem_unsigned_u128
@method2fn ibig_rem_unsigned_u128 IBig
@rewrite `self % IBig :: from_unsigned ( rhs )` => `vp_self.rem(crate::convert::ibig_from_unsigned_u128(rhs))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn IBig::div_rem_unsigned -> r
@mono T=u128 as ibig_div_rem_unsigned_u128
@method2fn ibig_div_rem_unsigned_u128 IBig
@rewrite `IBig :: from_unsigned ( rhs )` => `crate::convert::ibig_from_unsigned_u128(rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn UBig::rem_ref_unsigned -> r
@mono T=u128 as ubig_rem_ref_unsigned_u128
@method2fn ubig_rem_ref_unsigned_u128 UBig
@rewrite `( self % UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u128(&vp_self.rem(crate::convert::ubig_from_unsigned_u128(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_ref_unsigned -> r
@mono T=u128 as ubig_div_rem_ref_unsigned_u128
@method2fn ubig_div_rem_ref_unsigned_u128 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u128(rhs)`
@rewrite `r . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_u128(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn IBig::rem_ref_unsigned -> r
@mono T=u128 as ibig_rem_ref_unsigned_u128
@method2fn ibig_rem_ref_unsigned_u128 IBig
@rewrite `self % IBig :: from_unsigned ( rhs )` => `vp_self.rem(crate::convert::ibig_from_unsigned_u128(rhs))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn IBig::div_rem_ref_unsigned -> r
@mono T=u128 as ibig_div_rem_ref_unsigned_u128
@method2fn ibig_div_rem_ref_unsigned_u128 IBig
@rewrite `IBig :: from_unsigned ( rhs )` => `crate::convert::ibig_from_unsigned_u128(rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn UBig::rem_assign_unsigned
@mono T=u128 as ubig_rem_assign_unsigned_u128
@method2fn ubig_rem_assign_unsigned_u128 UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_u128(rhs)`
@panics (rhs as int) == 0 || tr((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(old(vp_self).v() as int, rhs as int); }
@fn UBig::div_unsigned -> r
@mono T=usize as ubig_div_unsigned_usize
@method2fn ubig_div_unsigned_usize UBig
@rewrite `self / UBig :: from_unsigned ( rhs )` => `vp_self.div(crate::convert::ubig_from_unsigned_usize(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_ref_unsigned -> r
@mono T=usize as ubig_div_ref_unsigned_usize
@method2fn ubig_div_ref_unsigned_usize UBig
@rewrite `self / UBig :: from_unsigned ( rhs )` => `vp_self.div(crate::convert::ubig_from_unsigned_usize(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_assign_unsigned
@mono T=usize as ubig_div_assign_unsigned_usize
@method2fn ubig_div_assign_unsigned_usize UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_usize(rhs)`
@panics (rhs as int) == 0 || tq((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(old(vp_self).v() as int, rhs as int); }
@fn IBig::div_primitive -> r
@mono T=usize as ibig_div_primitive_usize
@method2fn ibig_div_primitive_usize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_ref_primitive -> r
@mono T=usize as ibig_div_ref_primitive_usize
@method2fn ibig_div_ref_primitive_usize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_assign_primitive
@mono T=usize as ibig_div_assign_primitive_usize
@method2fn ibig_div_assign_primitive_usize IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_euclid_primitive -> r
@mono T=usize as ibig_div_euclid_primitive_usize
@method2fn ibig_div_euclid_primitive_usize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::div_euclid_ref_primitive -> r
@mono T=usize as ibig_div_euclid_ref_primitive_usize
@method2fn ibig_div_euclid_ref_primitive_usize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::rem_euclid_primitive -> r
@mono T=usize as ibig_rem_euclid_primitive_usize
@method2fn ibig_rem_euclid_primitive_usize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_euclid_ref_primitive -> r
@mono T=usize as ibig_rem_euclid_ref_primitive_usize
@method2fn ibig_rem_euclid_ref_primitive_usize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_primitive -> r
@mono T=usize as ibig_div_rem_euclid_primitive_usize
@method2fn ibig_div_rem_euclid_primitive_usize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_ref_primitive -> r
@mono T=usize as ibig_div_rem_euclid_ref_primitive_usize
@method2fn ibig_div_rem_euclid_ref_primitive_usize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_assign_primitive
@mono T=usize as ibig_rem_assign_primitive_usize
@method2fn ibig_rem_assign_primitive_usize IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@fn UBig::rem_unsigned -> r
@mono T=usize as ubig_rem_unsigned_usize
@method2fn ubig_rem_unsigned_usize UBig
@rewrite `( self % UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_usize(&vp_self.rem(crate::convert::ubig_from_unsigned_usize(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_unsigned -> r
@mono T=usize as ubig_div_rem_unsigned_usize
@method2fn ubig_div_rem_unsigned_usize UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_usize(rhs)`
@rewrite `r . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_usize(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn IBig::rem_unsigned -> r
@mono T=usize as ibig_rem_unsigned_usize
@method2fn ibig_rem_unsigned_usize IBig
@rewrite `self % IBig :: from_unsigned ( rhs )` => `vp_self.rem(crate::convert::ibig_from_unsigned_usize(rhs))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn IBig::div_rem_unsigned -> r
@mono T=usize as ibig_div_rem_unsigned_usize
@method2fn ibig_div_rem_unsigned_usize IBig
@rewrite `IBig :: from_unsigned ( rhs )` => `crate::convert::ibig_from_unsigned_usize(rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn UBig::rem_ref_unsigned -> r
@mono T=usize as ubig_rem_ref_unsigned_usize
@method2fn ubig_rem_ref_unsigned_usize UBig
@rewrite `( self % UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_usize(&vp_self.rem(crate::convert::ubig_from_unsigned_usize(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_ref_unsigned -> r
@mono T=usize as ubig_div_rem_ref_unsigned_usize
@method2fn ubig_div_rem_ref_unsigned_usize UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_usize(rhs)`
@rewrite `r . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_usize(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }
@fn IBig::rem_ref_unsigned -> r
@mono T=usize as ibig_rem_ref_unsigned_usize
@method2fn ibig_rem_ref_unsigned_usize IBig
@rewrite `self % IBig :: from_unsigned ( rhs )` => `vp_self.rem(crate::convert::ibig_from_unsigned_usize(rhs))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn IBig::div_rem_ref_unsigned -> r
@mono T=usize as ibig_div_rem_ref_unsigned_usize
@method2fn ibig_div_rem_ref_unsigned_usize IBig
@rewrite `IBig :: from_unsigned ( rhs )` => `crate::convert::ibig_from_unsigned_usize(rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), r.1.wf(), (r.1.v() as int) == tr((vp_self.v() as int), (rhs as int))
@fn UBig::rem_assign_unsigned
@mono T=usize as ubig_rem_assign_unsigned_usize
@method2fn ubig_rem_assign_unsigned_usize UBig
@rewrite `UBig :: from_unsigned ( rhs )` => `crate::convert::ubig_from_unsigned_usize(rhs)`
@panics (rhs as int) == 0 || tr((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_nn(old(vp_self).v() as int, rhs as int); }
@fn UBig::div_signed -> r
@mono T=i8 as ubig_div_signed_i8
@method2fn ubig_div_signed_i8 UBig
@rewrite `IBig :: from ( self ) / IBig :: from_signed ( rhs )` => `IBig::from(vp_self).div(crate::convert::ibig_from_signed_i8(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn UBig::div_ref_signed -> r
@mono T=i8 as ubig_div_ref_signed_i8
@method2fn ubig_div_ref_signed_i8 UBig
@rewrite `IBig :: from ( self ) / IBig :: from_signed ( rhs )` => `IBig::from(vp_self).div(crate::convert::ibig_from_signed_i8(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn UBig::div_assign_signed
@mono T=i8 as ubig_div_assign_signed_i8
@method2fn ubig_div_assign_signed_i8 UBig
@rewrite `mem :: take ( self ) . div_signed ( rhs )` => `ubig_div_signed_i8(mem::take(vp_self), rhs)`
@panics (rhs as int) == 0 || tq((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_primitive -> r
@mono T=i8 as ibig_div_primitive_i8
@method2fn ibig_div_primitive_i8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_ref_primitive -> r
@mono T=i8 as ibig_div_ref_primitive_i8
@method2fn ibig_div_ref_primitive_i8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_assign_primitive
@mono T=i8 as ibig_div_assign_primitive_i8
@method2fn ibig_div_assign_primitive_i8 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_euclid_primitive -> r
@mono T=i8 as ibig_div_euclid_primitive_i8
@method2fn ibig_div_euclid_primitive_i8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::div_euclid_ref_primitive -> r
@mono T=i8 as ibig_div_euclid_ref_primitive_i8
@method2fn ibig_div_euclid_ref_primitive_i8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::rem_euclid_primitive -> r
@mono T=i8 as ibig_rem_euclid_primitive_i8
@method2fn ibig_rem_euclid_primitive_i8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_euclid_ref_primitive -> r
@mono T=i8 as ibig_rem_euclid_ref_primitive_i8
@method2fn ibig_rem_euclid_ref_primitive_i8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_primitive -> r
@mono T=i8 as ibig_div_rem_euclid_primitive_i8
@method2fn ibig_div_rem_euclid_primitive_i8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_ref_primitive -> r
@mono T=i8 as ibig_div_rem_euclid_ref_primitive_i8
@method2fn ibig_div_rem_euclid_ref_primitive_i8 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_assign_primitive
@mono T=i8 as ibig_rem_assign_primitive_i8
@method2fn ibig_rem_assign_primitive_i8 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@fn UBig::rem_signed -> r
@mono T=i8 as ubig_rem_signed_i8
@method2fn ubig_rem_signed_i8 UBig
@rewrite `rhs . to_sign_magnitude ( )` => `crate::primitive::i8_to_sign_magnitude(rhs)`
@rewrite `self . rem_unsigned ( rhs_unsigned )` => `ubig_rem_unsigned_u8(vp_self, rhs_unsigned)`
@rewrite `T :: try_from_sign_magnitude (` => `crate::primitive::i8_try_from_sign_magnitude(`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_signed -> r
@mono T=i8 as ubig_div_rem_signed_i8
@method2fn ubig_div_rem_signed_i8 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i8(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i8(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_euclid_signed -> r
@mono T=i8 as ubig_div_euclid_signed_i8
@method2fn ubig_div_euclid_signed_i8 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i8(rhs)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn UBig::rem_euclid_signed -> r
@mono T=i8 as ubig_rem_euclid_signed_i8
@method2fn ubig_rem_euclid_signed_i8 UBig
@rewrite `self . rem_signed ( rhs )` => `ubig_rem_signed_i8(vp_self, rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_euclid_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_euclid_signed -> r
@mono T=i8 as ubig_div_rem_euclid_signed_i8
@method2fn ubig_div_rem_euclid_signed_i8 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i8(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i8(&r)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::rem_signed -> r
@mono T=i8 as ibig_rem_signed_i8
@method2fn ibig_rem_signed_i8 IBig
@rewrite `( self % IBig :: from_signed ( rhs ) ) . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i8(&vp_self.rem(crate::convert::ibig_from_signed_i8(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::div_rem_signed -> r
@mono T=i8 as ibig_div_rem_signed_i8
@method2fn ibig_div_rem_signed_i8 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i8(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i8(&r)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::rem_ref_signed -> r
@mono T=i8 as ubig_rem_ref_signed_i8
@method2fn ubig_rem_ref_signed_i8 UBig
@rewrite `rhs . to_sign_magnitude ( )` => `crate::primitive::i8_to_sign_magnitude(rhs)`
@rewrite `self . rem_ref_unsigned ( rhs_unsigned )` => `ubig_rem_ref_unsigned_u8(vp_self, rhs_unsigned)`
@rewrite `T :: try_from_sign_magnitude (` => `crate::primitive::i8_try_from_sign_magnitude(`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_ref_signed -> r
@mono T=i8 as ubig_div_rem_ref_signed_i8
@method2fn ubig_div_rem_ref_signed_i8 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i8(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i8(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_euclid_ref_signed -> r
@mono T=i8 as ubig_div_euclid_ref_signed_i8
@method2fn ubig_div_euclid_ref_signed_i8 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i8(rhs)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn UBig::rem_euclid_ref_signed -> r
@mono T=i8 as ubig_rem_euclid_ref_signed_i8
@method2fn ubig_rem_euclid_ref_signed_i8 UBig
@rewrite `self . rem_ref_signed ( rhs )` => `ubig_rem_ref_signed_i8(vp_self, rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_euclid_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_euclid_ref_signed -> r
@mono T=i8 as ubig_div_rem_euclid_ref_signed_i8
@method2fn ubig_div_rem_euclid_ref_signed_i8 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i8(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i8(&r)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::rem_ref_signed -> r
@mono T=i8 as ibig_rem_ref_signed_i8
@method2fn ibig_rem_ref_signed_i8 IBig
@rewrite `( self % IBig :: from_signed ( rhs ) ) . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i8(&vp_self.rem(crate::convert::ibig_from_signed_i8(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::div_rem_ref_signed -> r
@mono T=i8 as ibig_div_rem_ref_signed_i8
@method2fn ibig_div_rem_ref_signed_i8 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i8(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i8(&r)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::rem_assign_signed
@mono T=i8 as ubig_rem_assign_signed_i8
@method2fn ubig_rem_assign_signed_i8 UBig
@rewrite `IBig :: from ( mem :: take ( self ) ) % IBig :: from_signed ( rhs )` => `IBig::from(mem::take(vp_self)).rem(crate::convert::ibig_from_signed_i8(rhs))`
@panics (rhs as int) == 0 || tr((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(old(vp_self).v() as int, rhs as int); }
@fn UBig::div_signed -> r
@mono T=i16 as ubig_div_signed_i16
@method2fn ubig_div_signed_i16 UBig
@rewrite `IBig :: from ( self ) / IBig :: from_signed ( rhs )` => `IBig::from(vp_self).div(crate::convert::ibig_from_signed_i16(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn UBig::div_ref_signed -> r
@mono T=i16 as ubig_div_ref_signed_i16
@method2fn ubig_div_ref_signed_i16 UBig
@rewrite `IBig :: from ( self ) / IBig :: from_signed ( rhs )` => `IBig::from(vp_self).div(crate::convert::ibig_from_signed_i16(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn UBig::div_assign_signed
@mono T=i16 as ubig_div_assign_signed_i16
@method2fn ubig_div_assign_signed_i16 UBig
@rewrite `mem :: take ( self ) . div_signed ( rhs )` => `ubig_div_signed_i16(mem::take(vp_self), rhs)`
@panics (rhs as int) == 0 || tq((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_primitive -> r
@mono T=i16 as ibig_div_primitive_i16
@method2fn ibig_div_primitive_i16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_ref_primitive -> r
@mono T=i16 as ibig_div_ref_primitive_i16
@method2fn ibig_div_ref_primitive_i16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_assign_primitive
@mono T=i16 as ibig_div_assign_primitive_i16
@method2fn ibig_div_assign_primitive_i16 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_euclid_primitive -> r
@mono T=i16 as ibig_div_euclid_primitive_i16
@method2fn ibig_div_euclid_primitive_i16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::div_euclid_ref_primitive -> r
@mono T=i16 as ibig_div_euclid_ref_primitive_i16
@method2fn ibig_div_euclid_ref_primitive_i16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::rem_euclid_primitive -> r
@mono T=i16 as ibig_rem_euclid_primitive_i16
@method2fn ibig_rem_euclid_primitive_i16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_euclid_ref_primitive -> r
@mono T=i16 as ibig_rem_euclid_ref_primitive_i16
@method2fn ibig_rem_euclid_ref_primitive_i16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_primitive -> r
@mono T=i16 as ibig_div_rem_euclid_primitive_i16
@method2fn ibig_div_rem_euclid_primitive_i16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_ref_primitive -> r
@mono T=i16 as ibig_div_rem_euclid_ref_primitive_i16
@method2fn ibig_div_rem_euclid_ref_primitive_i16 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_assign_primitive
@mono T=i16 as ibig_rem_assign_primitive_i16
@method2fn ibig_rem_assign_primitive_i16 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@fn UBig::rem_signed -> r
@mono T=i16 as ubig_rem_signed_i16
@method2fn ubig_rem_signed_i16 UBig
@rewrite `rhs . to_sign_magnitude ( )` => `crate::primitive::i16_to_sign_magnitude(rhs)`
@rewrite `self . rem_unsigned ( rhs_unsigned )` => `ubig_rem_unsigned_u16(vp_self, rhs_unsigned)`
@rewrite `T :: try_from_sign_magnitude (` => `crate::primitive::i16_try_from_sign_magnitude(`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_signed -> r
@mono T=i16 as ubig_div_rem_signed_i16
@method2fn ubig_div_rem_signed_i16 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i16(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i16(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_euclid_signed -> r
@mono T=i16 as ubig_div_euclid_signed_i16
@method2fn ubig_div_euclid_signed_i16 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i16(rhs)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn UBig::rem_euclid_signed -> r
@mono T=i16 as ubig_rem_euclid_signed_i16
@method2fn ubig_rem_euclid_signed_i16 UBig
@rewrite `self . rem_signed ( rhs )` => `ubig_rem_signed_i16(vp_self, rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_euclid_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_euclid_signed -> r
@mono T=i16 as ubig_div_rem_euclid_signed_i16
@method2fn ubig_div_rem_euclid_signed_i16 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i16(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i16(&r)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::rem_signed -> r
@mono T=i16 as ibig_rem_signed_i16
@method2fn ibig_rem_signed_i16 IBig
@rewrite `( self % IBig :: from_signed ( rhs ) ) . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i16(&vp_self.rem(crate::convert::ibig_from_signed_i16(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::div_rem_signed -> r
@mono T=i16 as ibig_div_rem_signed_i16
@method2fn ibig_div_rem_signed_i16 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i16(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i16(&r)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::rem_ref_signed -> r
@mono T=i16 as ubig_rem_ref_signed_i16
@method2fn ubig_rem_ref_signed_i16 UBig
@rewrite `rhs . to_sign_magnitude ( )` => `crate::primitive::i16_to_sign_magnitude(rhs)`
@rewrite `self . rem_ref_unsigned ( rhs_unsigned )` => `ubig_rem_ref_unsigned_u16(vp_self, rhs_unsigned)`
@rewrite `T :: try_from_sign_magnitude (` => `crate::primitive::i16_try_from_sign_magnitude(`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_ref_signed -> r
@mono T=i16 as ubig_div_rem_ref_signed_i16
@method2fn ubig_div_rem_ref_signed_i16 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i16(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i16(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_euclid_ref_signed -> r
@mono T=i16 as ubig_div_euclid_ref_signed_i16
@method2fn ubig_div_euclid_ref_signed_i16 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i16(rhs)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn UBig::rem_euclid_ref_signed -> r
@mono T=i16 as ubig_rem_euclid_ref_signed_i16
@method2fn ubig_rem_euclid_ref_signed_i16 UBig
@rewrite `self . rem_ref_signed ( rhs )` => `ubig_rem_ref_signed_i16(vp_self, rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_euclid_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_euclid_ref_signed -> r
@mono T=i16 as ubig_div_rem_euclid_ref_signed_i16
@method2fn ubig_div_rem_euclid_ref_signed_i16 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i16(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i16(&r)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::rem_ref_signed -> r
@mono T=i16 as ibig_rem_ref_signed_i16
@method2fn ibig_rem_ref_signed_i16 IBig
@rewrite `( self % IBig :: from_signed ( rhs ) ) . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i16(&vp_self.rem(crate::convert::ibig_from_signed_i16(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::div_rem_ref_signed -> r
@mono T=i16 as ibig_div_rem_ref_signed_i16
@method2fn ibig_div_rem_ref_signed_i16 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i16(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i16(&r)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::rem_assign_signed
@mono T=i16 as ubig_rem_assign_signed_i16
@method2fn ubig_rem_assign_signed_i16 UBig
@rewrite `IBig :: from ( mem :: take ( self ) ) % IBig :: from_signed ( rhs )` => `IBig::from(mem::take(vp_self)).rem(crate::convert::ibig_from_signed_i16(rhs))`
@panics (rhs as int) == 0 || tr((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(old(vp_self).v() as int, rhs as int); }
@fn UBig::div_signed -> r
@mono T=i32 as ubig_div_signed_i32
@method2fn ubig_div_signed_i32 UBig
@rewrite `IBig :: from ( self ) / IBig :: from_signed ( rhs )` => `IBig::from(vp_self).div(crate::convert::ibig_from_signed_i32(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn UBig::div_ref_signed -> r
@mono T=i32 as ubig_div_ref_signed_i32
@method2fn ubig_div_ref_signed_i32 UBig
@rewrite `IBig :: from ( self ) / IBig :: from_signed ( rhs )` => `IBig::from(vp_self).div(crate::convert::ibig_from_signed_i32(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn UBig::div_assign_signed
@mono T=i32 as ubig_div_assign_signed_i32
@method2fn ubig_div_assign_signed_i32 UBig
@rewrite `mem :: take ( self ) . div_signed ( rhs )` => `ubig_div_signed_i32(mem::take(vp_self), rhs)`
@panics (rhs as int) == 0 || tq((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_primitive -> r
@mono T=i32 as ibig_div_primitive_i32
@method2fn ibig_div_primitive_i32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_ref_primitive -> r
@mono T=i32 as ibig_div_ref_primitive_i32
@method2fn ibig_div_ref_primitive_i32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_assign_primitive
@mono T=i32 as ibig_div_assign_primitive_i32
@method2fn ibig_div_assign_primitive_i32 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_euclid_primitive -> r
@mono T=i32 as ibig_div_euclid_primitive_i32
@method2fn ibig_div_euclid_primitive_i32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::div_euclid_ref_primitive -> r
@mono T=i32 as ibig_div_euclid_ref_primitive_i32
@method2fn ibig_div_euclid_ref_primitive_i32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::rem_euclid_primitive -> r
@mono T=i32 as ibig_rem_euclid_primitive_i32
@method2fn ibig_rem_euclid_primitive_i32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_euclid_ref_primitive -> r
@mono T=i32 as ibig_rem_euclid_ref_primitive_i32
@method2fn ibig_rem_euclid_ref_primitive_i32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_primitive -> r
@mono T=i32 as ibig_div_rem_euclid_primitive_i32
@method2fn ibig_div_rem_euclid_primitive_i32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_ref_primitive -> r
@mono T=i32 as ibig_div_rem_euclid_ref_primitive_i32
@method2fn ibig_div_rem_euclid_ref_primitive_i32 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_assign_primitive
@mono T=i32 as ibig_rem_assign_primitive_i32
@method2fn ibig_rem_assign_primitive_i32 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@fn UBig::rem_signed -> r
@mono T=i32 as ubig_rem_signed_i32
@method2fn ubig_rem_signed_i32 UBig
@rewrite `rhs . to_sign_magnitude ( )` => `crate::primitive::i32_to_sign_magnitude(rhs)`
@rewrite `self . rem_unsigned ( rhs_unsigned )` => `ubig_rem_unsigned_u32(vp_self, rhs_unsigned)`
@rewrite `T :: try_from_sign_magnitude (` => `crate::primitive::i32_try_from_sign_magnitude(`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_signed -> r
@mono T=i32 as ubig_div_rem_signed_i32
@method2fn ubig_div_rem_signed_i32 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i32(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i32(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_euclid_signed -> r
@mono T=i32 as ubig_div_euclid_signed_i32
@method2fn ubig_div_euclid_signed_i32 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i32(rhs)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn UBig::rem_euclid_signed -> r
@mono T=i32 as ubig_rem_euclid_signed_i32
@method2fn ubig_rem_euclid_signed_i32 UBig
@rewrite `self . rem_signed ( rhs )` => `ubig_rem_signed_i32(vp_self, rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_euclid_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_euclid_signed -> r
@mono T=i32 as ubig_div_rem_euclid_signed_i32
@method2fn ubig_div_rem_euclid_signed_i32 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i32(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i32(&r)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::rem_signed -> r
@mono T=i32 as ibig_rem_signed_i32
@method2fn ibig_rem_signed_i32 IBig
@rewrite `( self % IBig :: from_signed ( rhs ) ) . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i32(&vp_self.rem(crate::convert::ibig_from_signed_i32(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::div_rem_signed -> r
@mono T=i32 as ibig_div_rem_signed_i32
@method2fn ibig_div_rem_signed_i32 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i32(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i32(&r)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::rem_ref_signed -> r
@mono T=i32 as ubig_rem_ref_signed_i32
@method2fn ubig_rem_ref_signed_i32 UBig
@rewrite `rhs . to_sign_magnitude ( )` => `crate::primitive::i32_to_sign_magnitude(rhs)`
@rewrite `self . rem_ref_unsigned ( rhs_unsigned )` => `ubig_rem_ref_unsigned_u32(vp_self, rhs_unsigned)`
@rewrite `T :: try_from_sign_magnitude (` => `crate::primitive::i32_try_from_sign_magnitude(`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_ref_signed -> r
@mono T=i32 as ubig_div_rem_ref_signed_i32
@method2fn ubig_div_rem_ref_signed_i32 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i32(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i32(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_euclid_ref_signed -> r
@mono T=i32 as ubig_div_euclid_ref_signed_i32
@method2fn ubig_div_euclid_ref_signed_i32 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i32(rhs)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn UBig::rem_euclid_ref_signed -> r
@mono T=i32 as ubig_rem_euclid_ref_signed_i32
@method2fn ubig_rem_euclid_ref_signed_i32 UBig
@rewrite `self . rem_ref_signed ( rhs )` => `ubig_rem_ref_signed_i32(vp_self, rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_euclid_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_euclid_ref_signed -> r
@mono T=i32 as ubig_div_rem_euclid_ref_signed_i32
@method2fn ubig_div_rem_euclid_ref_signed_i32 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i32(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i32(&r)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::rem_ref_signed -> r
@mono T=i32 as ibig_rem_ref_signed_i32
@method2fn ibig_rem_ref_signed_i32 IBig
@rewrite `( self % IBig :: from_signed ( rhs ) ) . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i32(&vp_self.rem(crate::convert::ibig_from_signed_i32(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::div_rem_ref_signed -> r
@mono T=i32 as ibig_div_rem_ref_signed_i32
@method2fn ibig_div_rem_ref_signed_i32 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i32(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i32(&r)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::rem_assign_signed
@mono T=i32 as ubig_rem_assign_signed_i32
@method2fn ubig_rem_assign_signed_i32 UBig
@rewrite `IBig :: from ( mem :: take ( self ) ) % IBig :: from_signed ( rhs )` => `IBig::from(mem::take(vp_self)).rem(crate::convert::ibig_from_signed_i32(rhs))`
@panics (rhs as int) == 0 || tr((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(old(vp_self).v() as int, rhs as int); }
@fn UBig::div_signed -> r
@mono T=i64 as ubig_div_signed_i64
@method2fn ubig_div_signed_i64 UBig
@rewrite `IBig :: from ( self ) / IBig :: from_signed ( rhs )` => `IBig::from(vp_self).div(crate::convert::ibig_from_signed_i64(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn UBig::div_ref_signed -> r
@mono T=i64 as ubig_div_ref_signed_i64
@method2fn ubig_div_ref_signed_i64 UBig
@rewrite `IBig :: from ( self ) / IBig :: from_signed ( rhs )` => `IBig::from(vp_self).div(crate::convert::ibig_from_signed_i64(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn UBig::div_assign_signed
@mono T=i64 as ubig_div_assign_signed_i64
@method2fn ubig_div_assign_signed_i64 UBig
@rewrite `mem :: take ( self ) . div_signed ( rhs )` => `ubig_div_signed_i64(mem::take(vp_self), rhs)`
@panics (rhs as int) == 0 || tq((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_primitive -> r
@mono T=i64 as ibig_div_primitive_i64
@method2fn ibig_div_primitive_i64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_ref_primitive -> r
@mono T=i64 as ibig_div_ref_primitive_i64
@method2fn ibig_div_ref_primitive_i64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_assign_primitive
@mono T=i64 as ibig_div_assign_primitive_i64
@method2fn ibig_div_assign_primitive_i64 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_euclid_primitive -> r
@mono T=i64 as ibig_div_euclid_primitive_i64
@method2fn ibig_div_euclid_primitive_i64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::div_euclid_ref_primitive -> r
@mono T=i64 as ibig_div_euclid_ref_primitive_i64
@method2fn ibig_div_euclid_ref_primitive_i64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::rem_euclid_primitive -> r
@mono T=i64 as ibig_rem_euclid_primitive_i64
@method2fn ibig_rem_euclid_primitive_i64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_euclid_ref_primitive -> r
@mono T=i64 as ibig_rem_euclid_ref_primitive_i64
@method2fn ibig_rem_euclid_ref_primitive_i64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_primitive -> r
@mono T=i64 as ibig_div_rem_euclid_primitive_i64
@method2fn ibig_div_rem_euclid_primitive_i64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_ref_primitive -> r
@mono T=i64 as ibig_div_rem_euclid_ref_primitive_i64
@method2fn ibig_div_rem_euclid_ref_primitive_i64 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_assign_primitive
@mono T=i64 as ibig_rem_assign_primitive_i64
@method2fn ibig_rem_assign_primitive_i64 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@fn UBig::rem_signed -> r
@mono T=i64 as ubig_rem_signed_i64
@method2fn ubig_rem_signed_i64 UBig
@rewrite `rhs . to_sign_magnitude ( )` => `crate::primitive::i64_to_sign_magnitude(rhs)`
@rewrite `self . rem_unsigned ( rhs_unsigned )` => `ubig_rem_unsigned_u64(vp_self, rhs_unsigned)`
@rewrite `T :: try_from_sign_magnitude (` => `crate::primitive::i64_try_from_sign_magnitude(`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_signed -> r
@mono T=i64 as ubig_div_rem_signed_i64
@method2fn ubig_div_rem_signed_i64 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i64(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i64(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_euclid_signed -> r
@mono T=i64 as ubig_div_euclid_signed_i64
@method2fn ubig_div_euclid_signed_i64 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i64(rhs)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn UBig::rem_euclid_signed -> r
@mono T=i64 as ubig_rem_euclid_signed_i64
@method2fn ubig_rem_euclid_signed_i64 UBig
@rewrite `self . rem_signed ( rhs )` => `ubig_rem_signed_i64(vp_self, rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_euclid_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_euclid_signed -> r
@mono T=i64 as ubig_div_rem_euclid_signed_i64
@method2fn ubig_div_rem_euclid_signed_i64 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i64(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i64(&r)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::rem_signed -> r
@mono T=i64 as ibig_rem_signed_i64
@method2fn ibig_rem_signed_i64 IBig
@rewrite `( self % IBig :: from_signed ( rhs ) ) . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i64(&vp_self.rem(crate::convert::ibig_from_signed_i64(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::div_rem_signed -> r
@mono T=i64 as ibig_div_rem_signed_i64
@method2fn ibig_div_rem_signed_i64 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i64(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i64(&r)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::rem_ref_signed -> r
@mono T=i64 as ubig_rem_ref_signed_i64
@method2fn ubig_rem_ref_signed_i64 UBig
@rewrite `rhs . to_sign_magnitude ( )` => `crate::primitive::i64_to_sign_magnitude(rhs)`
@rewrite `self . rem_ref_unsigned ( rhs_unsigned )` => `ubig_rem_ref_unsigned_u64(vp_self, rhs_unsigned)`
@rewrite `T :: try_from_sign_magnitude (` => `crate::primitive::i64_try_from_sign_magnitude(`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_ref_signed -> r
@mono T=i64 as ubig_div_rem_ref_signed_i64
@method2fn ubig_div_rem_ref_signed_i64 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i64(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i64(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_euclid_ref_signed -> r
@mono T=i64 as ubig_div_euclid_ref_signed_i64
@method2fn ubig_div_euclid_ref_signed_i64 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i64(rhs)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn UBig::rem_euclid_ref_signed -> r
@mono T=i64 as ubig_rem_euclid_ref_signed_i64
@method2fn ubig_rem_euclid_ref_signed_i64 UBig
@rewrite `self . rem_ref_signed ( rhs )` => `ubig_rem_ref_signed_i64(vp_self, rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_euclid_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_euclid_ref_signed -> r
@mono T=i64 as ubig_div_rem_euclid_ref_signed_i64
@method2fn ubig_div_rem_euclid_ref_signed_i64 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i64(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i64(&r)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::rem_ref_signed -> r
@mono T=i64 as ibig_rem_ref_signed_i64
@method2fn ibig_rem_ref_signed_i64 IBig
@rewrite `( self % IBig :: from_signed ( rhs ) ) . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i64(&vp_self.rem(crate::convert::ibig_from_signed_i64(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::div_rem_ref_signed -> r
@mono T=i64 as ibig_div_rem_ref_signed_i64
@method2fn ibig_div_rem_ref_signed_i64 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i64(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i64(&r)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::rem_assign_signed
@mono T=i64 as ubig_rem_assign_signed_i64
@method2fn ubig_rem_assign_signed_i64 UBig
@rewrite `IBig :: from ( mem :: take ( self ) ) % IBig :: from_signed ( rhs )` => `IBig::from(mem::take(vp_self)).rem(crate::convert::ibig_from_signed_i64(rhs))`
@panics (rhs as int) == 0 || tr((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(old(vp_self).v() as int, rhs as int); }
@fn UBig::div_signed -> r
@mono T=i128 as ubig_div_signed_i128
@method2fn ubig_div_signed_i128 UBig
@rewrite `IBig :: from ( self ) / IBig :: from_signed ( rhs )` => `IBig::from(vp_self).div(crate::convert::ibig_from_signed_i128(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn UBig::div_ref_signed -> r
@mono T=i128 as ubig_div_ref_signed_i128
@method2fn ubig_div_ref_signed_i128 UBig
@rewrite `IBig :: from ( self ) / IBig :: from_signed ( rhs )` => `IBig::from(vp_self).div(crate::convert::ibig_from_signed_i128(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn UBig::div_assign_signed
@mono T=i128 as ubig_div_assign_signed_i128
@method2fn ubig_div_assign_signed_i128 UBig
@rewrite `mem :: take ( self ) . div_signed ( rhs )` => `ubig_div_signed_i128(mem::take(vp_self), rhs)`
@panics (rhs as int) == 0 || tq((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_primitive -> r
@mono T=i128 as ibig_div_primitive_i128
@method2fn ibig_div_primitive_i128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_ref_primitive -> r
@mono T=i128 as ibig_div_ref_primitive_i128
@method2fn ibig_div_ref_primitive_i128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_assign_primitive
@mono T=i128 as ibig_div_assign_primitive_i128
@method2fn ibig_div_assign_primitive_i128 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_euclid_primitive -> r
@mono T=i128 as ibig_div_euclid_primitive_i128
@method2fn ibig_div_euclid_primitive_i128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::div_euclid_ref_primitive -> r
@mono T=i128 as ibig_div_euclid_ref_primitive_i128
@method2fn ibig_div_euclid_ref_primitive_i128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::rem_euclid_primitive -> r
@mono T=i128 as ibig_rem_euclid_primitive_i128
@method2fn ibig_rem_euclid_primitive_i128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_euclid_ref_primitive -> r
@mono T=i128 as ibig_rem_euclid_ref_primitive_i128
@method2fn ibig_rem_euclid_ref_primitive_i128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_primitive -> r
@mono T=i128 as ibig_div_rem_euclid_primitive_i128
@method2fn ibig_div_rem_euclid_primitive_i128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_ref_primitive -> r
@mono T=i128 as ibig_div_rem_euclid_ref_primitive_i128
@method2fn ibig_div_rem_euclid_ref_primitive_i128 IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_assign_primitive
@mono T=i128 as ibig_rem_assign_primitive_i128
@method2fn ibig_rem_assign_primitive_i128 IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@fn UBig::rem_signed -> r
@mono T=i128 as ubig_rem_signed_i128
@method2fn ubig_rem_signed_i128 UBig
@rewrite `rhs . to_sign_magnitude ( )` => `crate::primitive::i128_to_sign_magnitude(rhs)`
@rewrite `self . rem_unsigned ( rhs_unsigned )` => `ubig_rem_unsigned_u128(vp_self, rhs_unsigned)`
@rewrite `T :: try_from_sign_magnitude (` => `crate::primitive::i128_try_from_sign_magnitude(`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_signed -> r
@mono T=i128 as ubig_div_rem_signed_i128
@method2fn ubig_div_rem_signed_i128 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i128(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i128(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_euclid_signed -> r
@mono T=i128 as ubig_div_euclid_signed_i128
@method2fn ubig_div_euclid_signed_i128 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i128(rhs)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn UBig::rem_euclid_signed -> r
@mono T=i128 as ubig_rem_euclid_signed_i128
@method2fn ubig_rem_euclid_signed_i128 UBig
@rewrite `self . rem_signed ( rhs )` => `ubig_rem_signed_i128(vp_self, rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_euclid_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_euclid_signed -> r
@mono T=i128 as ubig_div_rem_euclid_signed_i128
@method2fn ubig_div_rem_euclid_signed_i128 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i128(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i128(&r)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::rem_signed -> r
@mono T=i128 as ibig_rem_signed_i128
@method2fn ibig_rem_signed_i128 IBig
@rewrite `( self % IBig :: from_signed ( rhs ) ) . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i128(&vp_self.rem(crate::convert::ibig_from_signed_i128(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::div_rem_signed -> r
@mono T=i128 as ibig_div_rem_signed_i128
@method2fn ibig_div_rem_signed_i128 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i128(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i128(&r)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::rem_ref_signed -> r
@mono T=i128 as ubig_rem_ref_signed_i128
@method2fn ubig_rem_ref_signed_i128 UBig
@rewrite `rhs . to_sign_magnitude ( )` => `crate::primitive::i128_to_sign_magnitude(rhs)`
@rewrite `self . rem_ref_unsigned ( rhs_unsigned )` => `ubig_rem_ref_unsigned_u128(vp_self, rhs_unsigned)`
@rewrite `T :: try_from_sign_magnitude (` => `crate::primitive::i128_try_from_sign_magnitude(`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_ref_signed -> r
@mono T=i128 as ubig_div_rem_ref_signed_i128
@method2fn ubig_div_rem_ref_signed_i128 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i128(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i128(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_euclid_ref_signed -> r
@mono T=i128 as ubig_div_euclid_ref_signed_i128
@method2fn ubig_div_euclid_ref_signed_i128 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i128(rhs)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn UBig::rem_euclid_ref_signed -> r
@mono T=i128 as ubig_rem_euclid_ref_signed_i128
@method2fn ubig_rem_euclid_ref_signed_i128 UBig
@rewrite `self . rem_ref_signed ( rhs )` => `ubig_rem_ref_signed_i128(vp_self, rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_euclid_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_euclid_ref_signed -> r
@mono T=i128 as ubig_div_rem_euclid_ref_signed_i128
@method2fn ubig_div_rem_euclid_ref_signed_i128 UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i128(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i128(&r)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::rem_ref_signed -> r
@mono T=i128 as ibig_rem_ref_signed_i128
@method2fn ibig_rem_ref_signed_i128 IBig
@rewrite `( self % IBig :: from_signed ( rhs ) ) . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i128(&vp_self.rem(crate::convert::ibig_from_signed_i128(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::div_rem_ref_signed -> r
@mono T=i128 as ibig_div_rem_ref_signed_i128
@method2fn ibig_div_rem_ref_signed_i128 IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_i128(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_i128(&r)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::rem_assign_signed
@mono T=i128 as ubig_rem_assign_signed_i128
@method2fn ubig_rem_assign_signed_i128 UBig
@rewrite `IBig :: from ( mem :: take ( self ) ) % IBig :: from_signed ( rhs )` => `IBig::from(mem::take(vp_self)).rem(crate::convert::ibig_from_signed_i128(rhs))`
@panics (rhs as int) == 0 || tr((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(old(vp_self).v() as int, rhs as int); }
@fn UBig::div_signed -> r
@mono T=isize as ubig_div_signed_isize
@method2fn ubig_div_signed_isize UBig
@rewrite `IBig :: from ( self ) / IBig :: from_signed ( rhs )` => `IBig::from(vp_self).div(crate::convert::ibig_from_signed_isize(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn UBig::div_ref_signed -> r
@mono T=isize as ubig_div_ref_signed_isize
@method2fn ubig_div_ref_signed_isize UBig
@rewrite `IBig :: from ( self ) / IBig :: from_signed ( rhs )` => `IBig::from(vp_self).div(crate::convert::ibig_from_signed_isize(rhs))`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn UBig::div_assign_signed
@mono T=isize as ubig_div_assign_signed_isize
@method2fn ubig_div_assign_signed_isize UBig
@rewrite `mem :: take ( self ) . div_signed ( rhs )` => `ubig_div_signed_isize(mem::take(vp_self), rhs)`
@panics (rhs as int) == 0 || tq((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_primitive -> r
@mono T=isize as ibig_div_primitive_isize
@method2fn ibig_div_primitive_isize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_ref_primitive -> r
@mono T=isize as ibig_div_ref_primitive_isize
@method2fn ibig_div_ref_primitive_isize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == tq((vp_self.v() as int), (rhs as int))
@fn IBig::div_assign_primitive
@mono T=isize as ibig_div_assign_primitive_isize
@method2fn ibig_div_assign_primitive_isize IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tq((old(vp_self).v() as int), (rhs as int))
@fn IBig::div_euclid_primitive -> r
@mono T=isize as ibig_div_euclid_primitive_isize
@method2fn ibig_div_euclid_primitive_isize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::div_euclid_ref_primitive -> r
@mono T=isize as ibig_div_euclid_ref_primitive_isize
@method2fn ibig_div_euclid_ref_primitive_isize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn IBig::rem_euclid_primitive -> r
@mono T=isize as ibig_rem_euclid_primitive_isize
@method2fn ibig_rem_euclid_primitive_isize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_euclid_ref_primitive -> r
@mono T=isize as ibig_rem_euclid_ref_primitive_isize
@method2fn ibig_rem_euclid_ref_primitive_isize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_primitive -> r
@mono T=isize as ibig_div_rem_euclid_primitive_isize
@method2fn ibig_div_rem_euclid_primitive_isize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::div_rem_euclid_ref_primitive -> r
@mono T=isize as ibig_div_rem_euclid_ref_primitive_isize
@method2fn ibig_div_rem_euclid_ref_primitive_isize IBig
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }
@fn IBig::rem_assign_primitive
@mono T=isize as ibig_rem_assign_primitive_isize
@method2fn ibig_rem_assign_primitive_isize IBig
@panics (rhs as int) == 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@fn UBig::rem_signed -> r
@mono T=isize as ubig_rem_signed_isize
@method2fn ubig_rem_signed_isize UBig
@rewrite `rhs . to_sign_magnitude ( )` => `crate::primitive::isize_to_sign_magnitude(rhs)`
@rewrite `self . rem_unsigned ( rhs_unsigned )` => `ubig_rem_unsigned_usize(vp_self, rhs_unsigned)`
@rewrite `T :: try_from_sign_magnitude (` => `crate::primitive::isize_try_from_sign_magnitude(`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_signed -> r
@mono T=isize as ubig_div_rem_signed_isize
@method2fn ubig_div_rem_signed_isize UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_isize(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_isize(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_euclid_signed -> r
@mono T=isize as ubig_div_euclid_signed_isize
@method2fn ubig_div_euclid_signed_isize UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_isize(rhs)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn UBig::rem_euclid_signed -> r
@mono T=isize as ubig_rem_euclid_signed_isize
@method2fn ubig_rem_euclid_signed_isize UBig
@rewrite `self . rem_signed ( rhs )` => `ubig_rem_signed_isize(vp_self, rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_euclid_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_euclid_signed -> r
@mono T=isize as ubig_div_rem_euclid_signed_isize
@method2fn ubig_div_rem_euclid_signed_isize UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_isize(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_isize(&r)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::rem_signed -> r
@mono T=isize as ibig_rem_signed_isize
@method2fn ibig_rem_signed_isize IBig
@rewrite `( self % IBig :: from_signed ( rhs ) ) . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_isize(&vp_self.rem(crate::convert::ibig_from_signed_isize(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::div_rem_signed -> r
@mono T=isize as ibig_div_rem_signed_isize
@method2fn ibig_div_rem_signed_isize IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_isize(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_isize(&r)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::rem_ref_signed -> r
@mono T=isize as ubig_rem_ref_signed_isize
@method2fn ubig_rem_ref_signed_isize UBig
@rewrite `rhs . to_sign_magnitude ( )` => `crate::primitive::isize_to_sign_magnitude(rhs)`
@rewrite `self . rem_ref_unsigned ( rhs_unsigned )` => `ubig_rem_ref_unsigned_usize(vp_self, rhs_unsigned)`
@rewrite `T :: try_from_sign_magnitude (` => `crate::primitive::isize_try_from_sign_magnitude(`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_ref_signed -> r
@mono T=isize as ubig_div_rem_ref_signed_isize
@method2fn ubig_div_rem_ref_signed_isize UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_isize(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_isize(&r)`
@panics (rhs as int) == 0 || tq((vp_self.v() as int), (rhs as int)) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::div_euclid_ref_signed -> r
@mono T=isize as ubig_div_euclid_ref_signed_isize
@method2fn ubig_div_euclid_ref_signed_isize UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_isize(rhs)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.wf(), (r.v() as int) == (vp_self.v() as int) / (rhs as int)
@fn UBig::rem_euclid_ref_signed -> r
@mono T=isize as ubig_rem_euclid_ref_signed_isize
@method2fn ubig_rem_euclid_ref_signed_isize UBig
@rewrite `self . rem_ref_signed ( rhs )` => `ubig_rem_ref_signed_isize(vp_self, rhs)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_trunc_euclid_nn(vp_self.v() as int, rhs as int); }
@fn UBig::div_rem_euclid_ref_signed -> r
@mono T=isize as ubig_div_rem_euclid_ref_signed_isize
@method2fn ubig_div_rem_euclid_ref_signed_isize UBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_isize(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_isize(&r)`
@panics (rhs as int) == 0 || (vp_self.v() as int) / (rhs as int) < 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == (vp_self.v() as int) / (rhs as int), (r.1 as int) == (vp_self.v() as int) % (rhs as int)
@start
proof { lemma_euclid_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::rem_ref_signed -> r
@mono T=isize as ibig_rem_ref_signed_isize
@method2fn ibig_rem_ref_signed_isize IBig
@rewrite `( self % IBig :: from_signed ( rhs ) ) . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_isize(&vp_self.rem(crate::convert::ibig_from_signed_isize(rhs)))`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures (r as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn IBig::div_rem_ref_signed -> r
@mono T=isize as ibig_div_rem_ref_signed_isize
@method2fn ibig_div_rem_ref_signed_isize IBig
@rewrite `IBig :: from_signed ( rhs )` => `crate::convert::ibig_from_signed_isize(rhs)`
@rewrite `r . try_to_signed ( )` => `crate::convert::ibig_try_to_signed_isize(&r)`
@panics (rhs as int) == 0
    requires vp_self.wf()
    ensures r.0.wf(), (r.0.v() as int) == tq((vp_self.v() as int), (rhs as int)), (r.1 as int) == tr((vp_self.v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }
@fn UBig::rem_assign_signed
@mono T=isize as ubig_rem_assign_signed_isize
@method2fn ubig_rem_assign_signed_isize UBig
@rewrite `IBig :: from ( mem :: take ( self ) ) % IBig :: from_signed ( rhs )` => `IBig::from(mem::take(vp_self)).rem(crate::convert::ibig_from_signed_isize(rhs))`
@panics (rhs as int) == 0 || tr((old(vp_self).v() as int), (rhs as int)) < 0
    requires old(vp_self).wf()
    ensures final(vp_self).wf(), (final(vp_self).v() as int) == tr((old(vp_self).v() as int), (rhs as int))
@start
proof { lemma_trunc_rem_fits(old(vp_self).v() as int, rhs as int); }
