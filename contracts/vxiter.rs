// Stand-in for the iterators the caller passes: a list that is handed out from the front.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct VxIter<T> { x: core::marker::PhantomData<T> }
impl<T> View for VxIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VxIter<T> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    // a hint that leaves room for two more
    #[verifier::external_body]
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        ensures r.0 + 16 <= usize::MAX
    { unimplemented!() }
}
// the list of what a generator yields
#[verifier::external_body]
fn vx_iter<T>(v: Vec<T>) -> (r: VxIter<T>)
    ensures r@ == v@
{ unimplemented!() }
