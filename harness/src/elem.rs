//! Element types used to exercise the tree: runs of uniquely numbered atoms.
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTreeTrait, Child, UseLengthFinder};
use std::ops::Range;

/// low 24 bits: identity; bits 24..28: touch count (part of the cache); 28..32: marks (not part of it)
pub type Atom = u32;
pub const ID: u32 = 0x00FF_FFFF;
pub const TOUCH: u32 = 0x0100_0000;
pub const MARK: u32 = 0x1000_0000;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct E<const TRY: bool, const CAP: usize> {
    /// class 0 never merges; equal non-zero classes merge up to CAP atoms
    pub cls: u8,
    pub v: Vec<Atom>,
    /// Some(id): an element of length zero that is nevertheless kept
    pub zero: Option<u32>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Item {
    A(u8, Atom),
    Z(u32),
}

impl<const TRY: bool, const CAP: usize> E<TRY, CAP> {
    pub fn items(&self) -> Vec<Item> {
        match self.zero {
            Some(z) => vec![Item::Z(z)],
            None => self.v.iter().map(|a| Item::A(self.cls, *a)).collect(),
        }
    }
    /// number of items (a zero-length element counts as one item)
    pub fn nitems(&self) -> usize {
        if self.zero.is_some() {
            1
        } else {
            self.v.len()
        }
    }
}

impl<const TRY: bool, const CAP: usize> HasLength for E<TRY, CAP> {
    fn rle_len(&self) -> usize {
        self.v.len()
    }
}
impl<const TRY: bool, const CAP: usize> Sliceable for E<TRY, CAP> {
    fn _slice(&self, r: Range<usize>) -> Self {
        assert!(self.zero.is_none() || (r.start == 0 && r.end == 0));
        E {
            cls: self.cls,
            v: self.v[r].to_vec(),
            zero: self.zero,
        }
    }
}
impl<const TRY: bool, const CAP: usize> Mergeable for E<TRY, CAP> {
    fn can_merge(&self, rhs: &Self) -> bool {
        self.cls != 0
            && self.cls == rhs.cls
            && self.zero.is_none()
            && rhs.zero.is_none()
            && self.v.len() + rhs.v.len() <= CAP
    }
    fn merge_right(&mut self, rhs: &Self) {
        assert!(self.can_merge(rhs), "merge_right without can_merge");
        self.v.extend_from_slice(&rhs.v);
    }
    fn merge_left(&mut self, left: &Self) {
        assert!(left.can_merge(self), "merge_left without can_merge");
        let mut n = left.v.clone();
        n.extend_from_slice(&self.v);
        self.v = n;
    }
}
impl<const TRY: bool, const CAP: usize> TryInsert for E<TRY, CAP> {
    fn try_insert(&mut self, pos: usize, elem: Self) -> Result<(), Self> {
        if !TRY
            || self.cls == 0
            || self.cls != elem.cls
            || self.zero.is_some()
            || elem.zero.is_some()
            || self.v.len() + elem.v.len() > CAP
            || pos > self.v.len()
        {
            return Err(elem);
        }
        let tail = self.v.split_off(pos);
        self.v.extend(elem.v);
        self.v.extend(tail);
        Ok(())
    }
}
impl<const TRY: bool, const CAP: usize> CanRemove for E<TRY, CAP> {
    fn can_remove(&self) -> bool {
        self.v.is_empty() && self.zero.is_none()
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Sum {
    pub len: i64,
    /// additive weight of identities and touches
    pub w: i64,
    /// order-dependent hash (only when NC)
    pub h: u64,
    pub zeros: i64,
}
impl CanRemove for Sum {
    fn can_remove(&self) -> bool {
        self == &Sum::default()
    }
}

const P: u64 = 0x9E37_79B9_7F4A_7C15;
fn pow(mut n: u64) -> u64 {
    let (mut b, mut r) = (P, 1u64);
    while n > 0 {
        if n & 1 == 1 {
            r = r.wrapping_mul(b);
        }
        b = b.wrapping_mul(b);
        n >>= 1;
    }
    r
}
fn weight(a: Atom) -> i64 {
    let id = (a & ID) as i64;
    let t = ((a >> 24) & 15) as i64;
    id * 7919 % 10007 + t * 1_000_003
}
pub fn concat<const NC: bool>(a: &Sum, b: &Sum) -> Sum {
    Sum {
        len: a.len + b.len,
        w: a.w + b.w,
        zeros: a.zeros + b.zeros,
        h: if NC {
            a.h.wrapping_mul(pow((b.len + b.zeros) as u64)).wrapping_add(b.h)
        } else {
            0
        },
    }
}

#[derive(Debug, Clone)]
pub struct Tr<const DIFF: bool, const NC: bool, const TRY: bool, const CAP: usize>;

impl<const DIFF: bool, const NC: bool, const TRY: bool, const CAP: usize> BTreeTrait
    for Tr<DIFF, NC, TRY, CAP>
{
    type Elem = E<TRY, CAP>;
    type Cache = Sum;
    type CacheDiff = Sum;
    const USE_DIFF: bool = DIFF;

    fn calc_cache_internal(cache: &mut Sum, caches: &[Child<Self>]) -> Sum {
        let mut s = Sum::default();
        for c in caches {
            s = concat::<NC>(&s, &c.cache);
        }
        let d = Self::sub_cache(&s, cache);
        *cache = s;
        d
    }
    fn apply_cache_diff(c: &mut Sum, d: &Sum) {
        assert!(!NC, "apply_cache_diff on a type without diffs");
        c.len += d.len;
        c.w += d.w;
        c.zeros += d.zeros;
    }
    fn merge_cache_diff(a: &mut Sum, b: &Sum) {
        assert!(!NC, "merge_cache_diff on a type without diffs");
        a.len += b.len;
        a.w += b.w;
        a.zeros += b.zeros;
    }
    fn get_elem_cache(e: &Self::Elem) -> Sum {
        let mut s = Sum::default();
        if let Some(z) = e.zero {
            s.zeros = 1;
            s.w = z as i64 * 31;
            s.h = if NC { z as u64 + 77 } else { 0 };
            return s;
        }
        for a in &e.v {
            s.len += 1;
            s.w += weight(*a);
            if NC {
                s.h = s
                    .h
                    .wrapping_mul(P)
                    .wrapping_add((*a & !(MARK * 15)) as u64 * 2654435761 + e.cls as u64 + 1);
            }
        }
        s
    }
    fn new_cache_to_diff(c: &Sum) -> Sum {
        c.clone()
    }
    fn sub_cache(a: &Sum, b: &Sum) -> Sum {
        Sum {
            len: a.len - b.len,
            w: a.w - b.w,
            zeros: a.zeros - b.zeros,
            h: 0,
        }
    }
}
impl<const DIFF: bool, const NC: bool, const TRY: bool, const CAP: usize>
    UseLengthFinder<Tr<DIFF, NC, TRY, CAP>> for Tr<DIFF, NC, TRY, CAP>
{
    fn get_len(c: &Sum) -> usize {
        c.len as usize
    }
}
