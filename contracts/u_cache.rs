// Cached summaries. (C05)
use vstd::prelude::*;
use std::ops::{Range, RangeBounds, Bound};
use std::cmp::Ordering;
use vstd::std_specs::range::*;
verus! {
//@ include std_range.rs
//@ include asserts.rs
//@ use rle_part.rs
//@ use merge_part.rs
//@ include deps.rs
//@ include base.rs
//@ include inv.rs
//@ use acc_part.rs
//@ include cache_part.rs
fn main() {}
}
