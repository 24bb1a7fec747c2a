// New, cleared and cloned trees. (C04, C05, C15, C16)
use vstd::prelude::*;
use std::ops::{Range, RangeBounds, Bound};
use std::cmp::Ordering;
use vstd::std_specs::range::*;
verus! {
//@ include std_range.rs
//@ include asserts.rs
//@ use rle_part.rs
//@ use merge_part.rs
//@ include deps.rs
//@ include base.rs
//@ include inv.rs
//@ use acc_part.rs
//@ use nav_part.rs
//@ use cache_part.rs
//@ use ins_part.rs
//@ use cont_part.rs
//@ include new_part.rs
fn main() {}
}
