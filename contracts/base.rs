// The types of lib.rs and the laws a user's BTreeTrait has to satisfy.
//@ rw type Elem: Debug + HasLength ==> type Elem: HasLength
//@ rw type Cache: Debug + Default + Clone + Eq ==> type Cache
//@ rw type CacheDiff: Debug + Default + CanRemove ==> type CacheDiff
//@ rw $p_c.cache.clone() ==> vx_clone(&$p_c.cache)
//@ rw B::Cache::default() ==> vx_cache0::<B>()

// Clone of summaries and elements returns an equal value (assumed of every lawful type)
#[verifier::external_body]
fn vx_clone<T>(x: &T) -> (r: T)
    ensures r == *x
{ unimplemented!() }
#[verifier::external_body]
fn vx_cache0<B: BTreeTrait>() -> (r: B::Cache)
    ensures r == B::c0()
{ unimplemented!() }

//@ code src/lib.rs "const MAX_CHILDREN_NUM" tags=
const MAX_CHILDREN_NUM: usize = 12;
//@ end

trait BTreeTrait: Sized {
//@ code src/lib.rs "trait BTreeTrait::type Elem" tags=
    type Elem: HasLength + Sliceable + Mergeable + TryInsert + CanRemove;
//@ end
//@ code src/lib.rs "trait BTreeTrait::type Cache" tags=
    type Cache;
//@ end
//@ code src/lib.rs "trait BTreeTrait::type CacheDiff" tags=
    type CacheDiff;
//@ end
//@ code src/lib.rs "trait BTreeTrait::const USE_DIFF" tags=
    const USE_DIFF: bool = true;
//@ end

    // summary of an element, of a list of children; the neutral summary; applying a difference; the difference of something new
    spec fn ec(e: Self::Elem) -> Self::Cache;
    spec fn sum(c: Seq<Self::Cache>) -> Self::Cache;
    spec fn c0() -> Self::Cache;
    spec fn app(c: Self::Cache, d: Self::CacheDiff) -> Self::Cache;
    spec fn merged(d: Self::CacheDiff, e: Self::CacheDiff) -> Self::CacheDiff;
    // whether calc_cache_internal yields the neutral summary when there is no child at all (OrdTrait leaves the old value)
    spec fn exact0() -> bool;
    proof fn law_c0()
        ensures Self::USE_DIFF ==> Self::exact0(), Self::exact0() ==> Self::sum(Seq::empty()) == Self::c0();
    // summaries calc_cache_internal can work with
    spec fn cok(c: Self::Cache) -> bool;
    proof fn law_cok(e: Self::Elem)
        requires e.ok()
        ensures Self::cok(Self::ec(e));
    proof fn law_cok_sum(c: Seq<Self::Cache>)
        requires c.len() > 0 || Self::exact0(), forall|i: int| 0 <= i < c.len() ==> Self::cok(#[trigger] c[i])
        ensures Self::cok(Self::sum(c));
    // a child without content adds nothing
    proof fn law_neutral(c: Seq<Self::Cache>, i: int)
        requires Self::exact0(), 0 <= i < c.len(), c[i] == Self::c0()
        ensures Self::sum(c.remove(i)) == Self::sum(c);
    // an element that can be removed has no summary
    proof fn law_removable(e: Self::Elem)
        requires Self::exact0(), e.ok(), e.removable()
        ensures Self::ec(e) == Self::c0();
    // a difference that takes child i from x to y takes the sum along
    proof fn law_app(c: Seq<Self::Cache>, i: int, d: Self::CacheDiff)
        requires Self::USE_DIFF, 0 <= i < c.len()
        ensures Self::sum(c.update(i, Self::app(c[i], d))) == Self::app(Self::sum(c), d);
    proof fn law_merged(c: Self::Cache, d: Self::CacheDiff, e: Self::CacheDiff)
        requires Self::USE_DIFF
        ensures Self::app(c, Self::merged(d, e)) == Self::app(Self::app(c, d), e);
    // one child more
    spec fn nd(c: Self::Cache) -> Self::CacheDiff;
    proof fn law_new(c: Seq<Self::Cache>, i: int, x: Self::Cache)
        requires Self::USE_DIFF, 0 <= i <= c.len()
        ensures Self::sum(c.insert(i, x)) == Self::app(Self::sum(c), Self::nd(x));
    // putting something into an element, cutting an element
    proof fn law_splice(e: Self::Elem, i: int, x: Self::Elem, f: Self::Elem)
        requires Self::USE_DIFF, e.ok(), x.ok(), f.ok(), 0 <= i <= e.content().len(),
            f.content() == e.content().subrange(0, i) + x.content() + e.content().subrange(i, e.content().len() as int)
        ensures Self::ec(f) == Self::app(Self::ec(e), Self::nd(Self::ec(x)));
    proof fn law_cut(a: Seq<Self::Cache>, e: Self::Elem, l: Self::Elem, r: Self::Elem, b: Seq<Self::Cache>)
        requires Self::USE_DIFF, e.ok(), l.ok(), r.ok(), e.content() == l.content() + r.content()
        ensures Self::sum(a + seq![Self::ec(l), Self::ec(r)] + b) == Self::sum(a + seq![Self::ec(e)] + b);
    // a node with one child has the summary of that child
    proof fn law_one(c: Seq<Self::Cache>)
        requires c.len() > 0 || Self::exact0()
        ensures Self::sum(seq![Self::sum(c)]) == Self::sum(c);
    // cutting a list of children in two
    proof fn law_assoc(a: Seq<Self::Cache>, b: Seq<Self::Cache>, c: Seq<Self::Cache>, d: Seq<Self::Cache>)
        requires b.len() > 0, c.len() > 0
        ensures Self::sum(a + seq![Self::sum(b), Self::sum(c)] + d) == Self::sum(a + seq![Self::sum(b + c)] + d);

//@ code src/lib.rs "trait BTreeTrait::calc_cache_internal" tags=C05
    fn calc_cache_internal(cache: &mut Self::Cache, caches: &[Child<Self>]) -> «(d:» Self::CacheDiff«)
        requires forall|i: int| 0 <= i < caches@.len() ==> Self::cok((#[trigger] caches@[i]).cache)
        ensures forall|s: Seq<Self::Cache>| s.len() == caches@.len() && (s.len() > 0 || Self::exact0())
                && (forall|i: int| 0 <= i < s.len() ==> s[i] == caches@[i].cache) ==> *final(cache) == #[trigger] Self::sum(s),
            Self::USE_DIFF ==> *final(cache) == Self::app(*old(cache), d)»;
//@ end
//@ code src/lib.rs "trait BTreeTrait::apply_cache_diff" tags=C05
    fn apply_cache_diff(cache: &mut Self::Cache, diff: &Self::CacheDiff)«
        requires Self::USE_DIFF
        ensures *final(cache) == Self::app(*old(cache), *diff)»;
//@ end
//@ code src/lib.rs "trait BTreeTrait::merge_cache_diff" tags=C05
    fn merge_cache_diff(diff1: &mut Self::CacheDiff, diff2: &Self::CacheDiff)«
        requires Self::USE_DIFF
        ensures *final(diff1) == Self::merged(*old(diff1), *diff2)»;
//@ end
//@ code src/lib.rs "trait BTreeTrait::get_elem_cache" tags=C05
    fn get_elem_cache(elem: &Self::Elem) -> «(c:» Self::Cache«)
        requires elem.ok()
        ensures c == Self::ec(*elem)»;
//@ end
//@ code src/lib.rs "trait BTreeTrait::new_cache_to_diff" tags=C05
    fn new_cache_to_diff(cache: &Self::Cache) -> «(d:» Self::CacheDiff«)
        ensures Self::USE_DIFF ==> d == Self::nd(*cache)»;
//@ end
//@ code src/lib.rs "trait BTreeTrait::sub_cache" tags=C05
    fn sub_cache(cache_lhs: &Self::Cache, cache_rhs: &Self::Cache) -> «(d:» Self::CacheDiff«)
        ensures Self::USE_DIFF ==> Self::app(*cache_rhs, d) == *cache_lhs»;
//@ end
}

// the summaries stored in a list of children
spec fn cch<B: BTreeTrait>(ch: Seq<Child<B>>) -> Seq<B::Cache> { ch.map_values(|c: Child<B>| c.cache) }

//@ code src/lib.rs "enum ArenaIndex" tags=
«#[derive(Clone, Copy, PartialEq, Eq, Structural)]»
«pub» enum ArenaIndex {
    Leaf(RawArenaIndex),
    Internal(RawArenaIndex),
}
//@ end
impl ArenaIndex {
    pub open spec fn ix(self) -> RawArenaIndex { match self { ArenaIndex::Leaf(x) => x, ArenaIndex::Internal(x) => x } }
//@ code src/lib.rs "ArenaIndex::unwrap" tags=
    fn unwrap(self) -> «(r:» RawArenaIndex«)
        ensures r == self.ix()»
    {
        match self {
            ArenaIndex::Leaf(x) => x,
            ArenaIndex::Internal(x) => x,
        }
    }
//@ end
//@ code src/lib.rs "ArenaIndex::unwrap_leaf" tags=C16
    fn unwrap_leaf(self) -> «(r:» RawArenaIndex«)
        requires self is Leaf
        ensures r == self.ix()»
    {
        match self {
            ArenaIndex::Leaf(x) => x,
            ArenaIndex::Internal(_) => panic!(),
        }
    }
//@ end
//@ code src/lib.rs "ArenaIndex::unwrap_internal" tags=C16
    fn unwrap_internal(self) -> «(r:» RawArenaIndex«)
        requires self is Internal
        ensures r == self.ix()»
    {
        match self {
            ArenaIndex::Leaf(_) => panic!(),
            ArenaIndex::Internal(x) => x,
        }
    }
//@ end
}

//@ code src/lib.rs "struct LeafIndex" tags=
«#[derive(Clone, Copy, PartialEq, Eq, Structural)]»
«pub» struct LeafIndex(«pub» RawArenaIndex);
//@ end
impl vstd::std_specs::convert::FromSpecImpl<LeafIndex> for ArenaIndex {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: LeafIndex) -> ArenaIndex { ArenaIndex::Leaf(v.0) }
}
impl vstd::std_specs::convert::FromSpecImpl<RawArenaIndex> for LeafIndex {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: RawArenaIndex) -> LeafIndex { LeafIndex(v) }
}
impl From<LeafIndex> for ArenaIndex {
//@ code src/lib.rs "From for ArenaIndex::from" tags=
    fn from(value: LeafIndex) -> Self
    {
        Self::Leaf(value.0)
    }
//@ end
}
impl From<RawArenaIndex> for LeafIndex {
//@ code src/lib.rs "From for LeafIndex::from" tags=
    fn from(value: RawArenaIndex) -> Self
    {
        Self(value)
    }
//@ end
}
//@ code src/lib.rs "struct Cursor" tags=
«#[derive(Clone, Copy, PartialEq, Eq, Structural)]»
«pub» struct Cursor {
    «pub» leaf: LeafIndex,
    «pub» offset: usize,
}
//@ end
//@ code src/lib.rs "struct QueryResult" tags=
«#[derive(Clone, Copy, PartialEq, Eq, Structural)]»
struct QueryResult {
    cursor: Cursor,
    found: bool,
}
//@ end
//@ code src/lib.rs "struct Idx" tags=
«#[derive(Clone, Copy, PartialEq, Eq, Structural)]»
struct Idx {
    arena: ArenaIndex,
    arr: u8,
}
//@ end
impl Idx {
//@ code src/lib.rs "Idx::new" tags=
    fn new(arena: ArenaIndex, arr: u8) -> «(r:» Self«)
        ensures r == (Idx { arena, arr })»
    {
        Self { arena, arr }
    }
//@ end
}
//@ code src/lib.rs "type NodePath" tags=
type NodePath = HeaplessVec<Idx, 16>;
//@ end
//@ code src/lib.rs "struct LeafNode" tags=
struct LeafNode<Elem> {
    elem: Elem,
    parent: RawArenaIndex,
}
//@ end
//@ code src/lib.rs "struct Child" tags=
struct Child<B: ?Sized + BTreeTrait> {
    arena: ArenaIndex,
    cache: B::Cache,
}
//@ end
//@ code src/lib.rs "struct Node" tags=
struct Node<B: BTreeTrait> {
    parent: Option<ArenaIndex>,
    parent_slot: u8,
    children: HeaplessVec<Child<B>, MAX_CHILDREN_NUM>,
}
//@ end
// only so that Result::unwrap is allowed
#[verifier::external] impl core::fmt::Debug for Idx { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
#[verifier::external] impl<B: BTreeTrait> core::fmt::Debug for Child<B> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
#[verifier::external] impl<B: BTreeTrait> Clone for Child<B> { fn clone(&self) -> Self { unimplemented!() } }
//@ code src/lib.rs "struct BTree" tags=
struct BTree<B: BTreeTrait> {
    in_nodes: Arena<Node<B>>,
    leaf_nodes: Arena<LeafNode<B::Elem>>,
    root: ArenaIndex,
    root_cache: B::Cache,
    «g: Ghost<G>,»
}
//@ end
