trait HasLength {
    type Unit;
    spec fn content(&self) -> Seq<Self::Unit>;
    // what must hold for the methods to be called (data invariant of the implementation)
    spec fn ok(&self) -> bool;
    proof fn law_len(&self)
        requires self.ok()
        ensures self.content().len() <= usize::MAX;
//@ code src/rle.rs "trait HasLength::rle_len" tags=C14
    fn rle_len(&self) -> «(n:» usize«)
        requires self.ok()
        ensures n == self.content().len()»;
//@ end
}

trait Sliceable: HasLength + Sized {
    // whether empty slices may be taken (Unmergeable panics on them)
    spec fn sl0() -> bool;
//@ code src/rle.rs "trait Sliceable::_slice" tags=C14
    fn _slice(&self, range: Range<usize>) -> «(r:» Self«)
        requires self.ok(), range.start <= range.end <= self.content().len(), Self::sl0() || range.start < range.end
        ensures r.ok(), r.content() == self.content().subrange(range.start as int, range.end as int)»;
//@ end

//@ code src/rle.rs "trait Sliceable::slice" tags=C14
    fn slice<VxR: RangeBounds<usize>>(&self, range: VxR) -> «(r:» Self«)
        requires self.ok(), rb_valid(range, self.content().len() as int), Self::sl0() || rb_lo(range) < rb_hi(range, self.content().len() as int)
        ensures r.ok(), r.content() == self.content().subrange(rb_lo(range), rb_hi(range, self.content().len() as int))»
    {
        let start = match vx_start_bound(&range) {
            std::ops::Bound::Included(x) => *x,
            std::ops::Bound::Excluded(x) => x + 1,
            std::ops::Bound::Unbounded => 0,
        };

        let end = match vx_end_bound(&range) {
            std::ops::Bound::Included(x) => x + 1,
            std::ops::Bound::Excluded(x) => *x,
            std::ops::Bound::Unbounded => self.rle_len(),
        };

        self._slice(start..end)
    }
//@ end

//@ code src/rle.rs "trait Sliceable::slice_" tags=C14
    fn slice_<VxR: RangeBounds<usize>>(&mut self, range: VxR)
«        requires old(self).ok(), rb_valid(range, old(self).content().len() as int), Self::sl0() || rb_lo(range) < rb_hi(range, old(self).content().len() as int)
        ensures final(self).ok(), final(self).content() == old(self).content().subrange(rb_lo(range), rb_hi(range, old(self).content().len() as int))»
    {
        *self = self.slice(range);
    }
//@ end

//@ code src/rle.rs "trait Sliceable::split" tags=C14
    fn split(&mut self, pos: usize) -> «(r:» Self«)
        requires old(self).ok(), pos <= old(self).content().len(), Self::sl0() || 0 < pos < old(self).content().len()
        ensures final(self).ok(), r.ok(), final(self).content() == old(self).content().subrange(0, pos as int),
            r.content() == old(self).content().subrange(pos as int, old(self).content().len() as int)»
    {
        «proof { self.law_len(); }»
        let right = self.slice(pos..);
        self.slice_(..pos);
        right
    }
//@ end

//@ code src/rle.rs "trait Sliceable::update_with_split" tags=C14
    fn update_with_split<VxR: RangeBounds<usize>>(
        &mut self,
        range: VxR,
        f: impl FnOnce(&mut Self),
    ) -> «(r:» (Option<Self>, Option<Self>)«)
        requires
            rb_lo(range) <= usize::MAX, rb_hi(range, old(self).content().len() as int) <= old(self).content().len(), 0 <= rb_lo(range),
            old(self).ok(),
            forall|x: &mut Self| (*x).ok() ==> call_requires(f, (x,)),
        ensures
            // nothing to do
            rb_lo(range) >= rb_hi(range, old(self).content().len() as int) ==>
                r.0 is None && r.1 is None && final(self).content() == old(self).content(),
            // f is applied exactly to the content of the range, whose result is the middle of the three parts
            rb_lo(range) < rb_hi(range, old(self).content().len() as int) ==> ({
                let lo = rb_lo(range);
                let hi = rb_hi(range, old(self).content().len() as int);
                let old_c = old(self).content();
                exists|m: &mut Self| #[trigger] call_ensures(f, (m,), ()) && (*m).ok() && (*m).content() == old_c.subrange(lo, hi) && ({
                    if lo == 0 && hi == old_c.len() {
                        *final(self) == *final(m) && r.0 is None && r.1 is None
                    } else if lo == 0 {
                        *final(self) == *final(m) && r.0 is Some && r.0->0.content() == old_c.subrange(hi, old_c.len() as int) && r.1 is None
                    } else if hi == old_c.len() {
                        final(self).content() == old_c.subrange(0, lo) && r.0 == Some(*final(m)) && r.1 is None
                    } else {
                        final(self).content() == old_c.subrange(0, lo) && r.0 == Some(*final(m))
                            && r.1 is Some && r.1->0.content() == old_c.subrange(hi, old_c.len() as int)
                    }
                })
            }),»
    {
        «proof { self.law_len(); }»
        let start = match vx_start_bound(&range) {
            std::ops::Bound::Included(x) => *x,
            std::ops::Bound::Excluded(x) => x + 1,
            std::ops::Bound::Unbounded => 0,
        };

        let end = match vx_end_bound(&range) {
            std::ops::Bound::Included(x) => x + 1,
            std::ops::Bound::Excluded(x) => *x,
            std::ops::Bound::Unbounded => self.rle_len(),
        };

        if start >= end {
            return (None, None);
        }

        match (start == 0, end == self.rle_len()) {
            (true, true) => {
                f(self);
                (None, None)
            }
            (true, false) => {
                let right = self.split(end);
                f(self);
                (Some(right), None)
            }
            (false, true) => {
                let mut right = self.split(start);
                f(&mut right);
                (Some(right), None)
            }
            (false, false) => {
                let right = self.split(end);
                let mut middle = self.split(start);
                f(&mut middle);
                (Some(middle), Some(right))
            }
        }
    }
//@ end
}

