// std::ops::RangeBounds: what start_bound()/end_bound() return is what vstd's RangeBoundsSpec says (assumed).
//@ rw $p_r.start_bound() ==> vx_start_bound(&$p_r)
//@ rw $p_r.end_bound() ==> vx_end_bound(&$p_r)
//@ rw fn $i_f($$a range: impl RangeBounds<usize> $$b) ==> fn $i_f<VxR: RangeBounds<usize>>($$a range: VxR $$b)
#[verifier::external_body]
fn vx_start_bound<T, R: RangeBounds<T>>(r: &R) -> (b: Bound<&T>)
    ensures b == RangeBoundsSpec::spec_start_bound(r)
{ r.start_bound() }
#[verifier::external_body]
fn vx_end_bound<T, R: RangeBounds<T>>(r: &R) -> (b: Bound<&T>)
    ensures b == RangeBoundsSpec::spec_end_bound(r)
{ r.end_bound() }

spec fn rb_lo<R: RangeBounds<usize>>(r: R) -> int {
    match RangeBoundsSpec::spec_start_bound(&r) {
        Bound::Included(x) => *x as int,
        Bound::Excluded(x) => *x + 1,
        Bound::Unbounded => 0,
    }
}
spec fn rb_hi<R: RangeBounds<usize>>(r: R, len: int) -> int {
    match RangeBoundsSpec::spec_end_bound(&r) {
        Bound::Included(x) => *x + 1,
        Bound::Excluded(x) => *x as int,
        Bound::Unbounded => len,
    }
}
spec fn rb_valid<R: RangeBounds<usize>>(r: R, len: int) -> bool {
    &&& 0 <= rb_lo(r) <= rb_hi(r, len) <= len
    &&& rb_hi(r, len) <= usize::MAX
}
