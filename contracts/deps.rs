// Stand-ins for the dependencies (thunderdome::Arena, heapless::Vec, std::mem): their contracts are ASSUMED, not proved.
//@ rw take(&mut $p_x.children) ==> vx_take_vec(&mut $p_x.children)
//@ rw std::mem::take(&mut $p_x.cache) ==> vx_take(&mut $p_x.cache)
//@ rw std::mem::take(&mut $p_x.root_cache) ==> vx_take(&mut $p_x.root_cache)
//@ rw core::mem::replace($a, $b) ==> vx_replace($a, $b)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct RawArenaIndex { pub slot: u32, pub generation: u32 }

// `used` is every index the arena ever handed out: an index is never handed out twice (generations; 2^32 of them per slot).
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct Arena<T> { x: core::marker::PhantomData<T> }
impl<T> View for Arena<T> { type V = Map<RawArenaIndex, T>; uninterp spec fn view(&self) -> Map<RawArenaIndex, T>; }
impl<T> Arena<T> {
    uninterp spec fn used(&self) -> Set<RawArenaIndex>;
    #[verifier::external_body]
    broadcast proof fn axiom_used(&self, i: RawArenaIndex)
        requires #[trigger] self@.contains_key(i)
        ensures self.used().contains(i)
    {}
    // slots are numbered by u32
    #[verifier::external_body]
    broadcast proof fn axiom_len(&self)
        ensures #[trigger] self@.dom().len() <= 0xffff_ffff, self@.dom().finite()
    {}
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@ == Map::<RawArenaIndex, T>::empty(), r.used() == Set::<RawArenaIndex>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, x: T) -> (r: RawArenaIndex)
        ensures !old(self)@.contains_key(r), !old(self).used().contains(r), final(self)@ == old(self)@.insert(r, x),
            final(self).used() == old(self).used().insert(r)
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, i: RawArenaIndex) -> (r: Option<T>)
        ensures final(self).used() == old(self).used(), match r {
            Some(x) => old(self)@.contains_key(i) && x == old(self)@[i] && final(self)@ == old(self)@.remove(i),
            None => !old(self)@.contains_key(i) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, i: RawArenaIndex) -> (r: Option<&T>)
        ensures match r {
            Some(x) => self@.contains_key(i) && *x == self@[i],
            None => !self@.contains_key(i),
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, i: RawArenaIndex) -> (r: Option<&mut T>)
        ensures final(self).used() == old(self).used(), match r {
            Some(x) => old(self)@.contains_key(i) && *x == old(self)@[i] && final(self)@ == old(self)@.insert(i, *final(x)),
            None => !old(self)@.contains_key(i) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn get2_mut(&mut self, i: RawArenaIndex, j: RawArenaIndex) -> (r: (Option<&mut T>, Option<&mut T>))
        requires i != j
        ensures final(self).used() == old(self).used(), match r {
            (Some(x), Some(y)) => old(self)@.contains_key(i) && *x == old(self)@[i] && old(self)@.contains_key(j) && *y == old(self)@[j]
                && final(self)@ == old(self)@.insert(i, *final(x)).insert(j, *final(y)),
            (Some(x), None) => old(self)@.contains_key(i) && *x == old(self)@[i] && !old(self)@.contains_key(j)
                && final(self)@ == old(self)@.insert(i, *final(x)),
            (None, Some(y)) => !old(self)@.contains_key(i) && old(self)@.contains_key(j) && *y == old(self)@[j]
                && final(self)@ == old(self)@.insert(j, *final(y)),
            (None, None) => !old(self)@.contains_key(i) && !old(self)@.contains_key(j) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, i: RawArenaIndex) -> (r: bool)
        ensures r == self@.contains_key(i)
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(), self@.dom().finite(), r <= 0xffff_ffff
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct HeaplessVec<T, const N: usize> { x: [T; N] }
impl<T, const N: usize> View for HeaplessVec<T, N> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T, const N: usize> core::ops::Deref for HeaplessVec<T, N> {
    type Target = [T];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[T])
        ensures r@ == self@
    { unimplemented!() }
}
impl<T, const N: usize> core::ops::DerefMut for HeaplessVec<T, N> {
    #[verifier::external_body]
    fn deref_mut(&mut self) -> (r: &mut [T])
        ensures r@ == old(self)@, final(self)@ == final(r)@
    { unimplemented!() }
}
impl<T, const N: usize> HeaplessVec<T, N> {
    // a fixed-capacity vector never holds more than N
    #[verifier::external_body]
    broadcast proof fn axiom_cap(&self)
        ensures #[trigger] self@.len() <= N
    {}
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@ == Seq::<T>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, x: T) -> (r: Result<(), T>)
        ensures
            old(self)@.len() < N ==> r is Ok && final(self)@ == old(self)@.push(x),
            old(self)@.len() >= N ==> r == Err::<(), T>(x) && final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    fn pop(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, i: usize, x: T) -> (r: Result<(), T>)
        requires i <= old(self)@.len()
        ensures
            old(self)@.len() < N ==> r is Ok && final(self)@ == old(self)@.insert(i as int, x),
            old(self)@.len() >= N ==> r == Err::<(), T>(x) && final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    fn extend_from_slice(&mut self, x: &[T]) -> (r: Result<(), ()>)
        ensures
            old(self)@.len() + x@.len() <= N ==> r is Ok && final(self)@ == old(self)@ + x@,
            old(self)@.len() + x@.len() > N ==> r is Err && final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    fn reverse(&mut self)
        ensures final(self)@ == old(self)@.reverse()
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, i: usize) -> (r: T)
        requires i < old(self)@.len()
        ensures r == old(self)@[i as int], final(self)@ == old(self)@.remove(i as int)
    { unimplemented!() }
}

#[verifier::external_body]
fn vx_take_vec<T, const N: usize>(x: &mut HeaplessVec<T, N>) -> (r: HeaplessVec<T, N>)
    ensures r == *old(x), final(x)@ == Seq::<T>::empty()
{ unimplemented!() }
// mem::take where the default left behind does not matter
#[verifier::external_body]
fn vx_take<T>(x: &mut T) -> (r: T)
    ensures r == *old(x)
{ unimplemented!() }
#[verifier::external_body]
fn vx_replace<T>(x: &mut T, y: T) -> (r: T)
    ensures r == *old(x), *final(x) == y
{ unimplemented!() }
