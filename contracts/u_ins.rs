// Insertion. (C03, C04, C05, C07, C16)
use vstd::prelude::*;
use std::ops::{Range, RangeBounds, Bound};
use std::cmp::Ordering;
use vstd::std_specs::range::*;
verus! {
//@ include std_range.rs
//@ include asserts.rs
//@ use rle_part.rs
//@ use merge_part.rs
//@ include deps.rs
//@ include base.rs
//@ include inv.rs
//@ use acc_part.rs
//@ use cache_part.rs
//@ include ins_part.rs
fn main() {}
}
