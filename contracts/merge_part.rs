trait Mergeable: Sized + HasLength {
    spec fn may_merge(&self, rhs: &Self) -> bool;
//@ code src/rle.rs "trait Mergeable::can_merge" tags=C14
    fn can_merge(&self, rhs: &Self) -> «(b:» bool«)
        requires self.ok(), rhs.ok()
        ensures b == self.may_merge(rhs)»;
//@ end
//@ code src/rle.rs "trait Mergeable::merge_right" tags=C14
    fn merge_right(&mut self, rhs: &Self)
«        requires old(self).ok(), rhs.ok(), old(self).may_merge(rhs)
        ensures final(self).ok(), final(self).content() == old(self).content() + rhs.content()»;
//@ end
//@ code src/rle.rs "trait Mergeable::merge_left" tags=C14
    fn merge_left(&mut self, left: &Self)
«        requires old(self).ok(), left.ok(), left.may_merge(old(self))
        ensures final(self).ok(), final(self).content() == left.content() + old(self).content()»;
//@ end
}

trait TryInsert: HasLength {
//@ code src/rle.rs "trait TryInsert::try_insert" tags=C14
    fn try_insert(&mut self, pos: usize, elem: Self) -> «(r:» Result<(), Self>«)»
    where
        Self: Sized
«        requires old(self).ok(), elem.ok(), pos <= old(self).content().len()
        ensures
            final(self).ok(),
            r is Ok ==> final(self).content() == old(self).content().subrange(0, pos as int) + elem.content()
                + old(self).content().subrange(pos as int, old(self).content().len() as int),
            r is Err ==> *final(self) == *old(self) && r->Err_0 == elem»;
//@ end
}

trait CanRemove: HasLength {
    spec fn removable(&self) -> bool;
    proof fn law_removable(&self)
        requires self.ok(), self.removable()
        ensures self.content().len() == 0;
//@ code src/rle.rs "trait CanRemove::can_remove" tags=C14
    fn can_remove(&self) -> «(b:» bool«)
        requires self.ok()
        ensures b == self.removable()»;
//@ end
}

