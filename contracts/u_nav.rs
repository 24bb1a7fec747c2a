// Navigation and queries. (C10, C06, C16)
use vstd::prelude::*;
use std::ops::{Range, RangeBounds, Bound};
use std::cmp::Ordering;
use vstd::std_specs::range::*;
verus! {
//@ include std_range.rs
//@ include asserts.rs
//@ use rle_part.rs
//@ use merge_part.rs
//@ include deps.rs
//@ include base.rs
//@ include inv.rs
//@ include acc_part.rs
//@ include nav_part.rs
//@ include nav2_part.rs
//@ include iter_part.rs
fn main() {}
}
