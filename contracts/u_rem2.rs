// Balancing what removals leave behind. (C04, C05, C07, C08, C16)
use vstd::prelude::*;
use std::ops::{Range, RangeBounds, Bound};
use std::cmp::Ordering;
use vstd::std_specs::range::*;
verus! {
//@ opt rlimit=100
//@ opt opaque=regroup,drop,g_drop,moved,slotted,can_slot
//@ include std_range.rs
//@ include asserts.rs
//@ use rle_part.rs
//@ use merge_part.rs
//@ include deps.rs
//@ include base.rs
//@ include inv.rs
//@ use acc_part.rs
//@ use nav_part.rs
//@ use cache_part.rs
//@ use ins_part.rs
//@ use cont_part.rs
//@ use rem_part.rs
//@ include rem2_part.rs
fn main() {}
}
