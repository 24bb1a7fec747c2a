// Draining. (C09)
use vstd::prelude::*;
use std::ops::{Range, RangeBounds, Bound};
use std::cmp::Ordering;
use vstd::std_specs::range::*;
verus! {
//@ opt rlimit=100

//@ include std_range.rs
//@ include asserts.rs
//@ use rle_part.rs
//@ use merge_part.rs
//@ include deps.rs
//@ include base.rs
//@ include inv.rs
//@ use acc_part.rs
//@ use nav_part.rs
//@ use cache_part.rs
//@ use ins_part.rs
//@ use cont_part.rs
//@ use rem_part.rs
//@ use rem2_part.rs
//@ include chop_part.rs
fn main() {}
}
