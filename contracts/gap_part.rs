
//@ code src/generic_impl/gap_buffer.rs "const MAX_STRING_SIZE" tags=C14
const MAX_STRING_SIZE: usize = 128;
//@ end

//@ code src/generic_impl/gap_buffer.rs "struct GapBuffer" tags=C14
struct GapBuffer {
    buffer: [u8; MAX_STRING_SIZE],
    gap_start: u16,
    gap_len: u16,
}
//@ end

impl GapBuffer {
    spec fn wf(&self) -> bool {
        self.gap_start + self.gap_len <= MAX_STRING_SIZE
    }
    spec fn bytes(&self) -> Seq<u8> {
        self.buffer@.subrange(0, self.gap_start as int) + self.buffer@.subrange(self.gap_start + self.gap_len, MAX_STRING_SIZE as int)
    }

//@ code src/generic_impl/gap_buffer.rs "GapBuffer::new" tags=C14
    fn new() -> «(r:» Self«)
        ensures r.wf(), r.bytes() == Seq::<u8>::empty()»
    {
        Self {
            buffer: [0; MAX_STRING_SIZE],
            gap_start: 0,
            gap_len: MAX_STRING_SIZE as u16,
        }
    }
//@ end

//@ code src/generic_impl/gap_buffer.rs "GapBuffer::shift_at" tags=C14
    fn shift_at(&mut self, index: usize)
«        requires old(self).wf(), index <= old(self).bytes().len()
        ensures
            final(self).wf(),
            final(self).bytes() == old(self).bytes(),
            final(self).gap_start == index,
            final(self).gap_len == old(self).gap_len»
    {
        if index > self.len() {
            panic!();
        }

        let gap_start = self.gap_start as usize;
        let gap_end = (self.gap_start + self.gap_len) as usize;
        match index.cmp(&gap_start) {
            std::cmp::Ordering::Equal => {}
            std::cmp::Ordering::Less => {
                let gap_move = gap_start - index;
                self.buffer
                    .copy_within(index..gap_start, gap_end - gap_move);
                self.gap_start -= gap_move as u16;
            }
            std::cmp::Ordering::Greater => {
                let gap_move = index - gap_start;
                let move_end = self.buffer.len().min(gap_end + gap_move);
                self.buffer.copy_within(gap_end..move_end, gap_start);
                self.gap_start += gap_move as u16;
            }
        }
        «assert(self.bytes() =~= old(self).bytes());»
    }
//@ end

//@ code src/generic_impl/gap_buffer.rs "GapBuffer::push" tags=C14
    fn push(&mut self, value: u8) -> «(r:» Result<(), ()>«)
        requires old(self).wf(), old(self).gap_start == old(self).bytes().len()
        ensures
            final(self).wf(),
            r is Ok ==> final(self).bytes() == old(self).bytes().push(value),
            r is Err ==> *final(self) == *old(self)»
    {
        if self.gap_len == 0 {
            return Err(());
        }
        self.buffer[self.gap_start as usize] = value;
        self.gap_start += 1;
        self.gap_len -= 1;
        «assert(self.bytes() =~= old(self).bytes().push(value));»
        Ok(())
    }
//@ end

//@ code src/generic_impl/gap_buffer.rs "GapBuffer::push_bytes" tags=C14
    fn push_bytes(&mut self, bytes: &[u8]) -> «(r:» Result<(), ()>«)
        requires old(self).wf()
        ensures
            final(self).wf(),
            r is Ok <==> old(self).bytes().len() + bytes@.len() <= MAX_STRING_SIZE,
            r is Ok ==> final(self).bytes() == old(self).bytes() + bytes@,
            r is Err ==> *final(self) == *old(self)»
    {
        «proof { assert(old(self).bytes().subrange(0, old(self).bytes().len() as int) =~= old(self).bytes());
            assert(old(self).bytes().subrange(old(self).bytes().len() as int, old(self).bytes().len() as int) =~= Seq::empty());
            assert(old(self).bytes() + bytes@ + Seq::<u8>::empty() =~= old(self).bytes() + bytes@); }»
        self.insert_bytes(self.len(), bytes)
    }
//@ end

//@ code src/generic_impl/gap_buffer.rs "GapBuffer::insert_bytes" tags=C14
    fn insert_bytes(&mut self, index: usize, bytes: &[u8]) -> «(r:» Result<(), ()>«)
        requires old(self).wf(), index <= old(self).bytes().len()
        ensures
            final(self).wf(),
            r is Ok <==> old(self).bytes().len() + bytes@.len() <= MAX_STRING_SIZE,
            r is Ok ==> final(self).bytes() == old(self).bytes().subrange(0, index as int) + bytes@
                + old(self).bytes().subrange(index as int, old(self).bytes().len() as int),
            r is Err ==> *final(self) == *old(self)»
    {
        if (self.gap_len as usize) < bytes.len() {
            return Err(());
        }

        self.shift_at(index);
        self.buffer[index..index + bytes.len()].copy_from_slice(bytes);
        self.gap_start += bytes.len() as u16;
        self.gap_len -= bytes.len() as u16;
        «assert(self.bytes() =~= old(self).bytes().subrange(0, index as int) + bytes@
                + old(self).bytes().subrange(index as int, old(self).bytes().len() as int));»
        Ok(())
    }
//@ end

//@ code src/generic_impl/gap_buffer.rs "GapBuffer::insert_bytes_pair" tags=C14
//@ rw ($i_a, $i_b): (&[u8], &[u8]), ) -> Result<(), ()> { ==> vx_pair: (&[u8], &[u8]), ) -> Result<(), ()> { let ($i_a, $i_b) = vx_pair;
    fn insert_bytes_pair(
        &mut self,
        index: usize,
        vx_pair: (&[u8], &[u8]),
    ) -> «(r:» Result<(), ()>«)
        requires old(self).wf(), index <= old(self).bytes().len(), vx_pair.0@.len() + vx_pair.1@.len() <= usize::MAX
        ensures
            final(self).wf(),
            r is Ok <==> old(self).bytes().len() + vx_pair.0@.len() + vx_pair.1@.len() <= MAX_STRING_SIZE,
            r is Ok ==> final(self).bytes() == old(self).bytes().subrange(0, index as int) + (vx_pair.0@ + vx_pair.1@)
                + old(self).bytes().subrange(index as int, old(self).bytes().len() as int),
            r is Err ==> *final(self) == *old(self)»
    {
        let (left, right) = vx_pair;
        let len = left.len() + right.len();
        if (self.gap_len as usize) < len {
            return Err(());
        }

        self.shift_at(index);
        self.buffer[index..index + left.len()].copy_from_slice(left);
        self.buffer[index + left.len()..index + len].copy_from_slice(right);
        self.gap_start += len as u16;
        self.gap_len -= len as u16;
        «assert(self.bytes() =~= old(self).bytes().subrange(0, index as int) + (left@ + right@)
                + old(self).bytes().subrange(index as int, old(self).bytes().len() as int));»
        Ok(())
    }
//@ end

//@ code src/generic_impl/gap_buffer.rs "GapBuffer::delete" tags=C14
    fn delete<VxR: RangeBounds<usize>>(&mut self, range: VxR)
«        requires
            old(self).wf(),
            0 <= rb_lo(range) <= usize::MAX,
            0 <= rb_hi(range, old(self).bytes().len() as int) <= usize::MAX,
        ensures
            final(self).wf(),
            ({
                let n = old(self).bytes().len() as int;
                let hi = if rb_hi(range, n) <= n { rb_hi(range, n) } else { n };
                let lo = if rb_lo(range) <= hi { rb_lo(range) } else { hi };
                final(self).bytes() == old(self).bytes().subrange(0, lo) + old(self).bytes().subrange(hi, n)
            })»
    {
        let mut start = match vx_start_bound(&range) {
            std::ops::Bound::Included(x) => *x,
            std::ops::Bound::Excluded(x) => x + 1,
            std::ops::Bound::Unbounded => 0,
        };
        let mut end = match vx_end_bound(&range) {
            std::ops::Bound::Included(x) => x + 1,
            std::ops::Bound::Excluded(x) => *x,
            std::ops::Bound::Unbounded => self.len(),
        };

        end = end.min(self.len());
        start = start.min(self.len()).min(end);
        «proof {
            let n = old(self).bytes().len() as int;
            assert(old(self).bytes().subrange(0, end as int) + old(self).bytes().subrange(end as int, n) =~= old(self).bytes());
        }»
        if start == end {
            return;
        }

        let len = end - start;
        self.shift_at(end);
        self.gap_start = start as u16;
        self.gap_len += len as u16;
        «assert(self.bytes() =~= old(self).bytes().subrange(0, start as int)
            + old(self).bytes().subrange(end as int, old(self).bytes().len() as int));»
    }
//@ end

//@ code src/generic_impl/gap_buffer.rs "GapBuffer::capacity" tags=C14
    fn capacity(&self) -> «(r:» usize«)
        ensures r == MAX_STRING_SIZE»
    {
        self.buffer.len()
    }
//@ end

//@ code src/generic_impl/gap_buffer.rs "GapBuffer::len" tags=C14
    fn len(&self) -> «(r:» usize«)
        requires self.wf()
        ensures r == self.bytes().len()»
    {
        self.buffer.len() - self.gap_len as usize
    }
//@ end

//@ code src/generic_impl/gap_buffer.rs "GapBuffer::as_bytes" tags=C14
    fn as_bytes(&self) -> «(r:» (&[u8], &[u8])«)
        requires self.wf()
        ensures
            r.0@ == self.buffer@.subrange(0, self.gap_start as int),
            r.1@ == self.buffer@.subrange(self.gap_start + self.gap_len, MAX_STRING_SIZE as int),
            self.bytes() == r.0@ + r.1@»
    {
        (
            &self.buffer[..self.gap_start as usize],
            &self.buffer[(self.gap_start + self.gap_len) as usize..],
        )
    }
//@ end

//@ code src/generic_impl/gap_buffer.rs "GapBuffer::to_vec" tags=C14
    fn to_vec(&self) -> «(r:» Vec<u8>«)
        requires self.wf()
        ensures r@ == self.bytes()»
    {
        let mut vec = Vec::with_capacity(self.len());
        let (left, right) = self.as_bytes();
        vec.extend_from_slice(left);
        vec.extend_from_slice(right);
        «assert(vec@ =~= self.bytes());»
        vec
    }
//@ end
}

impl HasLength for GapBuffer {
    type Unit = u8;
    spec fn content(&self) -> Seq<u8> { self.bytes() }
    spec fn ok(&self) -> bool { self.wf() }
    proof fn law_len(&self) {}
//@ code src/generic_impl/gap_buffer.rs "HasLength for GapBuffer::rle_len" tags=C14
    fn rle_len(&self) -> usize {
        self.len()
    }
//@ end
}

impl Sliceable for GapBuffer {
    spec fn sl0() -> bool { true }
//@ code src/generic_impl/gap_buffer.rs "Sliceable for GapBuffer::_slice" tags=C14
    fn _slice(&self, range: Range<usize>) -> Self {
        let mut gb = Self::new();
        let start = range.start;
        let end = range.end;

        let (l, r) = self.as_bytes();
        if start < l.len() {
            gb.push_bytes(&l[start..end.min(l.len())]).unwrap();
        }
        if end > l.len() {
            gb.push_bytes(&r[start.saturating_sub(l.len())..end.saturating_sub(l.len())])
                .unwrap();
        }

        «assert(gb.bytes() =~= self.bytes().subrange(start as int, end as int));»
        assert!(gb.len() == end - start);
        gb
    }
//@ end

//@ code src/generic_impl/gap_buffer.rs "Sliceable for GapBuffer::slice_" tags=C14
    fn slice_<VxR: RangeBounds<usize>>(&mut self, range: VxR)
    where
        Self: Sized,
    {
        let start = match vx_start_bound(&range) {
            std::ops::Bound::Included(x) => *x,
            std::ops::Bound::Excluded(x) => x + 1,
            std::ops::Bound::Unbounded => 0,
        };
        let end = match vx_end_bound(&range) {
            std::ops::Bound::Included(x) => x + 1,
            std::ops::Bound::Excluded(x) => *x,
            std::ops::Bound::Unbounded => self.len(),
        };

        self.delete(end..);
        «proof { assert(self.bytes() =~= old(self).bytes().subrange(0, end as int)); }»
        self.delete(..start);
        «proof { assert(self.bytes() =~= old(self).bytes().subrange(start as int, end as int)); }»
        assert!(self.len() == end - start);
    }
//@ end

//@ code src/generic_impl/gap_buffer.rs "Sliceable for GapBuffer::split" tags=C14
    fn split(&mut self, pos: usize) -> Self
    where
        Self: Sized,
    {
        self.shift_at(pos);
        let right = self.as_bytes().1;
        let mut r = Self::new();
        r.push_bytes(right).unwrap();
        self.gap_len = (self.capacity() - pos) as u16;
        «proof {
            assert(self.bytes() =~= old(self).bytes().subrange(0, pos as int));
            assert(r.bytes() =~= old(self).bytes().subrange(pos as int, old(self).bytes().len() as int));
        }»
        r
    }
//@ end
}

impl Mergeable for GapBuffer {
    spec fn may_merge(&self, rhs: &Self) -> bool { self.bytes().len() + rhs.bytes().len() <= MAX_STRING_SIZE }
//@ code src/generic_impl/gap_buffer.rs "Mergeable for GapBuffer::can_merge" tags=C14
    fn can_merge(&self, rhs: &Self) -> bool {
        self.len() + rhs.len() <= MAX_STRING_SIZE
    }
//@ end
//@ code src/generic_impl/gap_buffer.rs "Mergeable for GapBuffer::merge_right" tags=C14
    fn merge_right(&mut self, rhs: &Self) {
        let pair = rhs.as_bytes();
        self.insert_bytes_pair(self.len(), pair).unwrap();
        «assert(self.bytes() =~= old(self).bytes() + rhs.bytes());»
    }
//@ end
//@ code src/generic_impl/gap_buffer.rs "Mergeable for GapBuffer::merge_left" tags=C14
    fn merge_left(&mut self, left: &Self) {
        let pair = left.as_bytes();
        self.insert_bytes_pair(0, pair).unwrap();
        «assert(self.bytes() =~= left.bytes() + old(self).bytes());»
    }
//@ end
}

impl TryInsert for GapBuffer {
//@ code src/generic_impl/gap_buffer.rs "TryInsert for GapBuffer::try_insert" tags=C14
    fn try_insert(&mut self, pos: usize, elem: Self) -> Result<(), Self>
    where
        Self: Sized,
    {
        if self.len() + elem.len() > MAX_STRING_SIZE {
            return Err(elem);
        }

        let pair = elem.as_bytes();
        self.insert_bytes_pair(pos, pair).unwrap();
        Ok(())
    }
//@ end
}

impl CanRemove for GapBuffer {
    spec fn removable(&self) -> bool { self.content().len() == 0 }
    proof fn law_removable(&self) {}
//@ code src/generic_impl/gap_buffer.rs "CanRemove for GapBuffer::can_remove" tags=C14
    fn can_remove(&self) -> bool {
        self.len() == 0
    }
//@ end
}
