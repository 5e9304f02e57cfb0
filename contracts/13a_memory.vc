@file memory.rs
@mod
// Scratch memory is handed out in words: lw(layout) is the number of words a layout has room for, cap() the number of words a
// Memory still holds. The unsafe pointer arithmetic behind it is trusted (bounded: driver, tests).
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExLayout(Layout);
pub uninterp spec fn lw(l: Layout) -> nat;
impl MemoryAllocation { pub uninterp spec fn cap(&self) -> nat; }
impl Memory<'_> { pub uninterp spec fn cap(&self) -> nat; }
@item struct MemoryAllocation external
@item struct Memory external
@trusted MemoryAllocation::new -> r
    ensures r.cap() == lw(layout)
@trusted MemoryAllocation::memory -> r
    ensures r.cap() == old(self).cap()
@trusted Memory<'_>::allocate_slice_fill -> r
    requires n <= old(self).cap()
    ensures r.0@ == Seq::new(n as nat, |i: int| val), r.1.cap() == old(self).cap() - n, final(self).cap() == old(self).cap()
@trusted Memory<'_>::allocate_slice_copy -> r
    requires source@.len() <= old(self).cap()
    ensures r.0@ == source@, r.1.cap() == old(self).cap() - source@.len(), final(self).cap() == old(self).cap()
@trusted Memory<'_>::allocate_slice_copy_fill -> r
    requires n <= old(self).cap(), n >= source@.len()
    ensures r.0@ == source@ + Seq::new((n - source@.len()) as nat, |i: int| val), r.1.cap() == old(self).cap() - n, final(self).cap() == old(self).cap()
@trusted zero_layout -> r
    ensures lw(r) == 0
@trusted array_layout -> r
    ensures lw(r) == n
@trusted add_layout -> r
    ensures lw(r) >= lw(a) + lw(b)
@trusted max_layout -> r
    ensures lw(r) >= lw(a), lw(r) >= lw(b)
@trusted panic_out_of_memory
