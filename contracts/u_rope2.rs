// Deleting from the rope. (C01)
use vstd::prelude::*;
use std::ops::{Range, RangeBounds, Bound};
use std::cmp::Ordering;
use vstd::std_specs::range::*;
verus! {
//@ opt rlimit=60
//@ include std_range.rs
//@ include asserts.rs
//@ use rle_part.rs
//@ use merge_part.rs
//@ use gap_part.rs
//@ include deps.rs
//@ include vxiter.rs
//@ include base.rs
//@ include inv.rs
//@ use acc_part.rs
//@ use nav_part.rs
//@ use nav2_part.rs
//@ use cache_part.rs
//@ use ins_part.rs
//@ use query_part.rs
//@ use cont_part.rs
//@ use ins2_part.rs
//@ use ins3_part.rs
//@ use rem_part.rs
//@ use rem2_part.rs
//@ use new_part.rs
//@ use upd_part.rs
//@ use bulk_part.rs
//@ use iter_part.rs
//@ use srch_part.rs
//@ use chop_part.rs
//@ use drain_part.rs
//@ use drop_part.rs
//@ use drop2_part.rs
//@ use rope_part.rs
//@ include rope2_part.rs
fn main() {}
}
