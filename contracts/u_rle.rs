// rle.rs: the provided methods of Sliceable against a content view; generic_impl/gap_buffer.rs: the chunk buffer. (C14)
use vstd::prelude::*;
use std::ops::{Range, RangeBounds, Bound};
use vstd::std_specs::range::*;
verus! {
//@ include std_range.rs
//@ include asserts.rs
//@ include rle_part.rs
//@ include merge_part.rs
//@ include gap_part.rs
fn main() {}
}
