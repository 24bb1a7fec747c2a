//! One very large tree of trivial elements: heights beyond what the random cases reach.
use generic_btree::rle::{HasLength, Mergeable, Sliceable, TryInsert, CanRemove};
use generic_btree::{BTree, BTreeTrait, Child, LengthFinder, UseLengthFinder};

#[derive(Debug, Clone)]
struct U(u32);
impl HasLength for U { fn rle_len(&self) -> usize { 1 } }
impl Sliceable for U { fn _slice(&self, _: std::ops::Range<usize>) -> Self { self.clone() } }
impl Mergeable for U {
    fn can_merge(&self, _: &Self) -> bool { false }
    fn merge_right(&mut self, _: &Self) { unreachable!() }
    fn merge_left(&mut self, _: &Self) { unreachable!() }
}
impl TryInsert for U { fn try_insert(&mut self, _: usize, e: Self) -> Result<(), Self> { Err(e) } }
impl CanRemove for U { fn can_remove(&self) -> bool { false } }
#[derive(Debug)]
struct T;
impl BTreeTrait for T {
    type Elem = U;
    type Cache = i32;
    type CacheDiff = i32;
    fn calc_cache_internal(cache: &mut i32, caches: &[Child<Self>]) -> i32 {
        let n = caches.iter().map(|x| x.cache).sum::<i32>();
        let d = n - *cache;
        *cache = n;
        d
    }
    fn apply_cache_diff(c: &mut i32, d: &i32) { *c += d }
    fn merge_cache_diff(a: &mut i32, b: &i32) { *a += b }
    fn get_elem_cache(_: &U) -> i32 { 1 }
    fn new_cache_to_diff(c: &i32) -> i32 { *c }
    fn sub_cache(a: &i32, b: &i32) -> i32 { a - b }
}
impl UseLengthFinder<T> for T { fn get_len(c: &i32) -> usize { *c as usize } }

pub fn run(n: usize) -> Result<(), String> {
    let r = std::panic::catch_unwind(|| {
        let mut t: BTree<T> = BTree::new();
        for i in 0..n { t.push(U(i as u32)); }
        let d = t.depth();
        let mut it = t.iter();
        for i in 0..3 { if it.next().map(|x| x.0) != Some(i) { return Err(format!("iter() wrong at height {}", d)); } }
        drop(it);
        for p in [0, n / 2, n - 1] {
            let q = t.query::<LengthFinder>(&p).unwrap();
            if q.elem(&t).map(|x| x.0 as usize) != Some(p) { return Err(format!("query({}) wrong at height {}", p, d)); }
            let mut c = 0usize;
            t.visit_previous_caches(q.cursor(), |x| if let generic_btree::PreviousCache::NodeCache(k) = x { c += *k as usize });
            if c != p { return Err(format!("visit_previous_caches wrong at height {}", d)); }
        }
        println!("height {}", d);
        Ok(())
    });
    match r { Ok(x) => x, Err(_) => Err(format!("panicked with {} elements: {}", n, crate::last_panic())) }
}
