// OrdTreeMap, OrdTreeSet: the types and what the tree needs to know of them. (C02)
//@ rw <Key: Clone + Ord + Debug + 'static, Value: Clone + Debug> ==> <Key: VxKey, Value>
//@ rw <Key: Clone + Ord + Debug + 'static> ==> <Key: VxKey>
//@ rw crate::Child<$i_x> ==> Child<$i_x>
//@ rw crate::Child<OrdTrait<Key, Value>> ==> Child<OrdTrait<Key, Value>>
//@ rw crate::FindResult ==> FindResult
//@ rw unreachable!() ==> panic!()
//@ rw core::cmp::Ordering ==> Ordering
//@ rw _phantom: Default::default() ==> _phantom: core::marker::PhantomData
//@ rw $p_s.binary_search_by($$c) ==> vx_bsearch($p_s, $$c)
//@ rw $p_q.cmp($x) ==> vx_cmp($p_q, $x)
//@ rw target < min ==> vx_lt(target, min)
//@ rw target > max ==> vx_lt(max, target)
//@ rw $i_i.min($x) ==> vx_min($i_i, $x)
//@ rw elem.0 .0.clone() ==> vx_clone(&elem.0 .0)
//@ rw caches[$i].cache.as_ref().unwrap().0.clone() ==> vx_clone(&caches[$i].cache.as_ref().unwrap().0)
//@ rw caches[$i].cache.as_ref().unwrap().1.clone() ==> vx_clone(&caches[$i].cache.as_ref().unwrap().1)
// What is ASSUMED of the key type's Ord: `<` is a strict weak order, cmp agrees with it.
trait VxKey: Sized + Clone {
    spec fn lt(self, o: Self) -> bool;
    proof fn law_irr(a: Self)
        ensures !a.lt(a);
    proof fn law_trans(a: Self, b: Self, c: Self)
        requires a.lt(b), b.lt(c)
        ensures a.lt(c);
    proof fn law_weak(a: Self, b: Self, c: Self)
        requires a.lt(c)
        ensures a.lt(b) || b.lt(c);
}
spec fn ord3<K: VxKey>(a: K, b: K) -> Ordering { if a.lt(b) { Ordering::Less } else if b.lt(a) { Ordering::Greater } else { Ordering::Equal } }
#[verifier::external_body]
fn vx_lt<K: VxKey>(a: &K, b: &K) -> (r: bool)
    ensures r == a.lt(*b)
{ unimplemented!() }
#[verifier::external_body]
fn vx_cmp<K: VxKey>(a: &K, b: &K) -> (r: Ordering)
    ensures r == ord3(*a, *b)
{ unimplemented!() }
fn vx_min(a: usize, b: usize) -> (r: usize)
    ensures r == if a < b { a } else { b }
{ if a < b { a } else { b } }
spec fn vx_is<T, F: Fn(&T) -> Ordering>(f: F, x: &T, o: Ordering) -> bool { forall|r: Ordering| call_ensures(f, (x,), r) ==> r == o }
spec fn onum(o: Ordering) -> int { match o { Ordering::Less => 0, Ordering::Equal => 1, Ordering::Greater => 2 } }
// [T]::binary_search_by, of a slice that the function sorts
#[verifier::external_body]
fn vx_bsearch<T, F: Fn(&T) -> Ordering>(s: &[T], f: F) -> (r: Result<usize, usize>)
    requires
        forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
        forall|i: int, j: int, a: Ordering, b: Ordering| 0 <= i <= j < s@.len() && call_ensures(f, (&s@[i],), a) && call_ensures(f, (&s@[j],), b) ==> onum(a) <= onum(b)
    ensures match r {
        Ok(i) => i < s@.len() && call_ensures(f, (&s@[i as int],), Ordering::Equal),
        Err(i) => i <= s@.len() && (forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] s@[j],), Ordering::Less))
            && (forall|j: int| i <= j < s@.len() ==> call_ensures(f, (&#[trigger] s@[j],), Ordering::Greater)),
    }
{ unimplemented!() }

//@ code src/generic_impl/ord.rs "struct Unmergeable" tags=
struct Unmergeable<T>(T);
//@ end
impl<T> HasLength for Unmergeable<T> {
    type Unit = T;
    spec fn content(&self) -> Seq<T> { seq![self.0] }
    spec fn ok(&self) -> bool { true }
    proof fn law_len(&self) {}
//@ code src/generic_impl/ord.rs "HasLength for Unmergeable::rle_len" tags=C02
    fn rle_len(&self) -> usize
    {
        1
    }
//@ end
}
impl<T> Sliceable for Unmergeable<T> {
    spec fn sl0() -> bool { false }
//@ code src/generic_impl/ord.rs "Sliceable for Unmergeable::_slice" tags=C02,C16
//@ rw self.clone() ==> vx_clone(self)
    fn _slice(&self, range: Range<usize>) -> «(r:» Self«)»
    {
        if range.end - range.start != 1 {
            panic!();
        }
        «proof { assert(self.content().subrange(0, 1) =~= self.content()); }»
        vx_clone(self)
    }
//@ end
}
impl<T> Mergeable for Unmergeable<T> {
    spec fn may_merge(&self, rhs: &Self) -> bool { false }
//@ code src/generic_impl/ord.rs "Mergeable for Unmergeable::can_merge" tags=C02
    fn can_merge(&self, _rhs: &Self) -> bool
    {
        false
    }
//@ end
//@ code src/generic_impl/ord.rs "Mergeable for Unmergeable::merge_right" tags=C02,C16
    fn merge_right(&mut self, _rhs: &Self)
    {
        panic!()
    }
//@ end
//@ code src/generic_impl/ord.rs "Mergeable for Unmergeable::merge_left" tags=C02,C16
    fn merge_left(&mut self, _left: &Self)
    {
        panic!()
    }
//@ end
}
impl<T> TryInsert for Unmergeable<T> {
//@ code src/generic_impl/ord.rs "TryInsert for Unmergeable::try_insert" tags=C02
    fn try_insert(&mut self, _pos: usize, elem: Self) -> Result<(), Self>
    {
        Err(elem)
    }
//@ end
}
impl<T> CanRemove for Unmergeable<T> {
    spec fn removable(&self) -> bool { false }
    proof fn law_removable(&self) {}
//@ code src/generic_impl/ord.rs "CanRemove for Unmergeable::can_remove" tags=C02
    fn can_remove(&self) -> bool
    {
        false
    }
//@ end
}
//@ code src/generic_impl/ord.rs "struct OrdTrait" tags=
struct OrdTrait<Key, Value> {
    _phantom: core::marker::PhantomData<(Key, Value)>,
}
//@ end
//@ code src/generic_impl/ord.rs "struct OrdTreeMap" tags=
struct OrdTreeMap<Key: VxKey, Value> {
    tree: BTree<OrdTrait<Key, Value>>,
    len: usize,
}
//@ end
//@ code src/generic_impl/ord.rs "struct OrdTreeSet" tags=
struct OrdTreeSet<Key: VxKey>(OrdTreeMap<Key, ()>);
//@ end
impl<Key: VxKey, Value> BTreeTrait for OrdTrait<Key, Value> {
//@ code src/generic_impl/ord.rs "BTreeTrait for OrdTrait::type Elem" tags=
    type Elem = Unmergeable<(Key, Value)>;
//@ end
//@ code src/generic_impl/ord.rs "BTreeTrait for OrdTrait::type Cache" tags=
    type Cache = Option<(Key, Key)>;
//@ end
//@ code src/generic_impl/ord.rs "BTreeTrait for OrdTrait::type CacheDiff" tags=
    type CacheDiff = ();
//@ end
//@ code src/generic_impl/ord.rs "BTreeTrait for OrdTrait::const USE_DIFF" tags=
    const USE_DIFF: bool = false;
//@ end
    spec fn ec(e: Unmergeable<(Key, Value)>) -> Option<(Key, Key)> { Some((e.0.0, e.0.0)) }
    spec fn sum(c: Seq<Option<(Key, Key)>>) -> Option<(Key, Key)> { if c.len() > 0 { Some(((c[0]->0).0, (c.last()->0).1)) } else { None } }
    spec fn c0() -> Option<(Key, Key)> { None }
    spec fn app(c: Option<(Key, Key)>, d: ()) -> Option<(Key, Key)> { c }
    spec fn merged(d: (), e: ()) -> () { () }
    spec fn exact0() -> bool { false }
    proof fn law_c0() {}
    spec fn cok(c: Option<(Key, Key)>) -> bool { c is Some }
    proof fn law_cok(e: Unmergeable<(Key, Value)>) {}
    proof fn law_cok_sum(c: Seq<Option<(Key, Key)>>) {}
    proof fn law_neutral(c: Seq<Option<(Key, Key)>>, i: int) {}
    proof fn law_removable(e: Self::Elem) {}
    proof fn law_app(c: Seq<Option<(Key, Key)>>, i: int, d: ()) {}
    proof fn law_merged(c: Option<(Key, Key)>, d: (), e: ()) {}
    spec fn nd(c: Option<(Key, Key)>) -> () { () }
    proof fn law_new(c: Seq<Option<(Key, Key)>>, i: int, x: Option<(Key, Key)>) {}
    proof fn law_splice(e: Unmergeable<(Key, Value)>, i: int, x: Unmergeable<(Key, Value)>, f: Unmergeable<(Key, Value)>) {}
    proof fn law_cut(a: Seq<Option<(Key, Key)>>, e: Unmergeable<(Key, Value)>, l: Unmergeable<(Key, Value)>, r: Unmergeable<(Key, Value)>, b: Seq<Option<(Key, Key)>>) {}
    proof fn law_one(c: Seq<Option<(Key, Key)>>) {}
    proof fn law_assoc(a: Seq<Option<(Key, Key)>>, b: Seq<Option<(Key, Key)>>, c: Seq<Option<(Key, Key)>>, d: Seq<Option<(Key, Key)>>) {}
//@ code src/generic_impl/ord.rs "BTreeTrait for OrdTrait::calc_cache_internal" tags=C02,C05,C16
    fn calc_cache_internal(cache: &mut Self::Cache, caches: &[Child<Self>])
    {
        if caches.is_empty() {
            return;
        }
        *cache = Some((
            vx_clone(&caches[0].cache.as_ref().unwrap().0),
            vx_clone(&caches[caches.len() - 1].cache.as_ref().unwrap().1),
        ));
    }
//@ end
//@ code src/generic_impl/ord.rs "BTreeTrait for OrdTrait::apply_cache_diff" tags=C02,C16
//@ rw _: &mut Self::Cache, _: &Self::CacheDiff ==> _c: &mut Self::Cache, _d: &Self::CacheDiff
    fn apply_cache_diff(_c: &mut Self::Cache, _d: &Self::CacheDiff)
    {
        panic!()
    }
//@ end
//@ code src/generic_impl/ord.rs "BTreeTrait for OrdTrait::merge_cache_diff" tags=C02
//@ rw _: &mut Self::CacheDiff, _: &Self::CacheDiff ==> _d: &mut Self::CacheDiff, _e: &Self::CacheDiff
    fn merge_cache_diff(_d: &mut Self::CacheDiff, _e: &Self::CacheDiff)
    {}
//@ end
//@ code src/generic_impl/ord.rs "BTreeTrait for OrdTrait::get_elem_cache" tags=C02,C05
    fn get_elem_cache(elem: &Self::Elem) -> Self::Cache
    {
        Some((vx_clone(&elem.0 .0), vx_clone(&elem.0 .0)))
    }
//@ end
//@ code src/generic_impl/ord.rs "BTreeTrait for OrdTrait::new_cache_to_diff" tags=C02
//@ rw _: &Self::Cache ==> _c: &Self::Cache
    fn new_cache_to_diff(_c: &Self::Cache) -> Self::CacheDiff
    {}
//@ end
//@ code src/generic_impl/ord.rs "BTreeTrait for OrdTrait::sub_cache" tags=C02
//@ rw _: &Self::Cache, _: &Self::Cache ==> _c: &Self::Cache, _e: &Self::Cache
    fn sub_cache(_c: &Self::Cache, _e: &Self::Cache) -> Self::CacheDiff
    {}
//@ end
}
impl<Key, Value> OrdTrait<Key, Value> {
//@ code src/generic_impl/ord.rs "Default for OrdTrait::default" tags=
    fn default() -> «(r:» Self«)
        ensures r == (OrdTrait { _phantom: core::marker::PhantomData::<(Key, Value)> })»
    {
        Self {
            _phantom: core::marker::PhantomData,
        }
    }
//@ end
}
// the first child all of whose keys are not less than t
spec fn ofst<K: VxKey, V>(ch: Seq<Child<OrdTrait<K, V>>>, t: K, i: int) -> int
    decreases ch.len() - i
{ if i < 0 || i >= ch.len() { ch.len() as int } else if (ch[i].cache->0).1.lt(t) { ofst(ch, t, i + 1) } else { i } }
proof fn lm_ofst<K: VxKey, V>(ch: Seq<Child<OrdTrait<K, V>>>, t: K, i: int, j: int)
    requires 0 <= i <= j <= ch.len(), forall|k: int| i <= k < j ==> (#[trigger] ch[k].cache->0).1.lt(t), j < ch.len() ==> !(ch[j].cache->0).1.lt(t)
    ensures ofst(ch, t, i) == j
    decreases j - i
{ if i < j { lm_ofst(ch, t, i + 1, j); } }
spec fn oside<K: VxKey, V>(c: Child<OrdTrait<K, V>>, t: K) -> Ordering {
    if t.lt((c.cache->0).0) { Ordering::Greater } else if (c.cache->0).1.lt(t) { Ordering::Less } else { Ordering::Equal }
}
proof fn lm_oside<K: VxKey, V>(ch: Seq<Child<OrdTrait<K, V>>>, t: K, i: int, j: int)
    requires 0 <= i < ch.len(), 0 <= j < ch.len(), <OrdTrait<K, V> as Query<OrdTrait<K, V>>>::q_ok(OrdTrait { _phantom: core::marker::PhantomData::<(K, V)> }, t, ch)
    ensures i < j && oside(ch[i], t) != Ordering::Less ==> oside(ch[j], t) == Ordering::Greater,
        (oside(ch[i], t) == Ordering::Less) == (ch[i].cache->0).1.lt(t)
{
    let (a, b) = (ch[i].cache->0, ch[j].cache->0);
    if t.lt(a.0) && a.1.lt(t) { K::law_trans(a.1, t, a.0); }
    if i < j {
        K::law_weak(a.1, a.0, b.0);
        if t.lt(a.0) { K::law_trans(t, a.0, b.0); }
        K::law_weak(a.1, t, b.0);
    }
}
impl<Key: VxKey, Value> Query<OrdTrait<Key, Value>> for OrdTrait<Key, Value> {
//@ code src/generic_impl/ord.rs "Query for OrdTrait::type QueryArg" tags=
    type QueryArg = Key;
//@ end
    spec fn q_init(t: Key) -> Self { OrdTrait { _phantom: core::marker::PhantomData::<(Key, Value)> } }
    spec fn q_ok(self, t: Key, ch: Seq<Child<OrdTrait<Key, Value>>>) -> bool {
        &&& forall|i: int| 0 <= i < ch.len() ==> (#[trigger] ch[i]).cache is Some && !(ch[i].cache->0).1.lt((ch[i].cache->0).0)
        &&& forall|i: int, j: int| 0 <= i < j < ch.len() ==> (#[trigger] ch[i].cache->0).1.lt((#[trigger] ch[j].cache->0).0)
    }
    spec fn q_node(self, t: Key, ch: Seq<Child<OrdTrait<Key, Value>>>) -> (Self, FindResult) {
        let i = ofst(ch, t, 0);
        (self, if i < ch.len() && !t.lt((ch[i].cache->0).0) { FindResult { index: i as usize, offset: 0, found: true } }
            else if i < ch.len() { FindResult { index: i as usize, offset: 0, found: false } }
            else { FindResult { index: (ch.len() - 1) as usize, offset: 1, found: false } })
    }
    spec fn q_elem(self, t: Key, e: Unmergeable<(Key, Value)>) -> (Self, usize, bool) {
        match ord3(t, e.0.0) { Ordering::Less => (self, 0, false), Ordering::Equal => (self, 0, true), Ordering::Greater => (self, 1, false) }
    }
//@ code src/generic_impl/ord.rs "Query for OrdTrait::init" tags=C02
    fn init(_target: &Self::QueryArg) -> Self
    {
        Self::default()
    }
//@ end
//@ code src/generic_impl/ord.rs "Query for OrdTrait::find_node" tags=C02,C06,C16
    fn find_node(
        &mut self,
        target: &Self::QueryArg,
        child_caches: &[Child<OrdTrait<Key, Value>>],
    ) -> FindResult
    {
        «let ghost ch = child_caches@; let ghost t = *target;
        proof {
            assert forall|i: int, j: int| 0 <= i < j < ch.len() implies onum(#[trigger] oside(ch[i], t)) <= onum(#[trigger] oside(ch[j], t)) by { lm_oside(ch, t, i, j); }
        }»
        let result = vx_bsearch(child_caches, |x«: &Child<OrdTrait<Key, Value>>»| «-> (r: Ordering)
            requires x.cache is Some
            ensures r == oside(*x, *target)» {
            let (min, max) = x.cache.as_ref().unwrap();
            if vx_lt(target, min) {
                Ordering::Greater
            } else if vx_lt(max, target) {
                Ordering::Less
            } else {
                Ordering::Equal
            }
        });
        «proof {
            let i: int = match result { Ok(i) => i as int, Err(i) => i as int };
            assert forall|k: int| 0 <= k < i implies (#[trigger] ch[k].cache->0).1.lt(t) by {
                if i < ch.len() { lm_oside(ch, t, k, i); } else { lm_oside(ch, t, k, k); }
                if result is Err { assert(oside(child_caches@[k], t) == Ordering::Less); }
            }
            if i < ch.len() { lm_oside(ch, t, i, i); if result is Err { assert(oside(child_caches@[i], t) == Ordering::Greater); } else { assert(oside(child_caches@[i], t) == Ordering::Equal); } }
            lm_ofst(ch, t, 0, i);
        }»
        match result {
            Ok(i) => FindResult::new_found(i, 0),
            Err(i) => FindResult::new_missing(
                vx_min(i, child_caches.len() - 1),
                if i == child_caches.len() { 1 } else { 0 },
            ),
        }
    }
//@ end
//@ code src/generic_impl/ord.rs "Query for OrdTrait::confirm_elem" tags=C02
    fn confirm_elem(
        &mut self,
        q: &Self::QueryArg,
        elem: &<OrdTrait<Key, Value> as BTreeTrait>::Elem,
    ) -> (usize, bool)
    {
        match vx_cmp(q, &elem.0 .0) {
            Ordering::Less => (0, false),
            Ordering::Equal => (0, true),
            Ordering::Greater => (1, false),
        }
    }
//@ end
}
// ---- the bindings of a tree in order
spec fn okey<K: VxKey, V>(t: TS<OrdTrait<K, V>>, g: G, i: int) -> K { t.leaves[g.lv[0][i]].elem.0.0 }
spec fn osorted<K: VxKey, V>(t: TS<OrdTrait<K, V>>, g: G) -> bool {
    forall|i: int, j: int| 0 <= i < j < g.lv[0].len() ==> (#[trigger] okey(t, g, i)).lt(#[trigger] okey(t, g, j))
}
proof fn lm_start_lt<B: BTreeTrait>(t: TS<B>, g: G, h: int, i: int)
    requires t.shape(g), 0 <= h < g.lv.len(), 0 <= i < g.lv[h].len(), g.lv[0].len() > 0
    ensures 0 <= t.start(g, h, i) < t.start(g, h, i + 1) <= g.lv[0].len()
    decreases h
{
    if h > 0 {
        let m = g.lv[h][i];
        t.lm_at(g, h, i);
        t.lm_node(g, m);
        t.lm_root(g);
        t.lm_end(g, h, i);
        t.lm_start(g, h, i, i + 1);
        lm_full(t, g, h - 1);
        t.lm_size(g, m);
        let f = (g.fst)(m);
        lm_start_lt(t, g, h - 1, f);
        t.lm_start(g, h - 1, f + 1, f + t.n(m));
    }
}
// the summary of a subtree is its first and its last key
proof fn lm_ospan<K: VxKey, V>(t: TS<OrdTrait<K, V>>, g: G, h: int, i: int)
    requires t.shape(g), t.caches_ok(), 0 <= h < g.lv.len(), 0 <= i < g.lv[h].len(), g.lv[0].len() > 0
    ensures t.kc(aix(g, h, i)) == Some((okey(t, g, t.start(g, h, i)), okey(t, g, t.start(g, h, i + 1) - 1)))
    decreases h
{
    t.lm_at(g, h, i);
    if h > 0 {
        let m = g.lv[h][i];
        t.lm_node(g, m);
        t.lm_root(g);
        t.lm_end(g, h, i);
        lm_full(t, g, h - 1);
        t.lm_size(g, m);
        lm_okid(t, g, h, i, 0);
        lm_okid(t, g, h, i, t.n(m) - 1);
    }
}
proof fn lm_okid<K: VxKey, V>(t: TS<OrdTrait<K, V>>, g: G, h: int, i: int, k: int)
    requires t.shape(g), t.caches_ok(), 1 <= h < g.lv.len(), 0 <= i < g.lv[h].len(), g.lv[0].len() > 0, 0 <= k < t.n(g.lv[h][i])
    ensures ({
        let m = g.lv[h][i];
        let f = (g.fst)(m);
        &&& t.nodes[m].ch[k].cache == Some((okey(t, g, t.start(g, h - 1, f + k)), okey(t, g, t.start(g, h - 1, f + k + 1) - 1)))
        &&& t.kids(m)[k] == t.nodes[m].ch[k].cache
        &&& 0 <= t.start(g, h - 1, f + k) < t.start(g, h - 1, f + k + 1) <= g.lv[0].len()
    })
    decreases h, 0int
{
    let m = g.lv[h][i];
    let f = (g.fst)(m);
    t.lm_at(g, h, i);
    t.lm_node(g, m);
    t.lm_child(g, m, k);
    t.lm_cache(m, k);
    lm_ospan(t, g, h - 1, f + k);
    lm_start_lt(t, g, h - 1, f + k);
}
// the place of the first key that is not less than k, and whether it is equal
spec fn orank<K: VxKey, V>(b: Seq<(K, V)>, k: K) -> int
    decreases b.len()
{ if b.len() == 0 { 0 } else if b[0].0.lt(k) { 1 + orank(b.skip(1), k) } else { 0 } }
spec fn ohit<K: VxKey, V>(b: Seq<(K, V)>, k: K) -> bool { let i = orank(b, k); i < b.len() && !k.lt(b[i].0) }
spec fn obinds<K: VxKey, V>(t: TS<OrdTrait<K, V>>, g: G) -> Seq<(K, V)> { Seq::new(g.lv[0].len(), |i: int| t.leaves[g.lv[0][i]].elem.0) }
proof fn lm_orank<K: VxKey, V>(b: Seq<(K, V)>, k: K, p: int)
    requires 0 <= p <= b.len(), forall|j: int| 0 <= j < p ==> (#[trigger] b[j]).0.lt(k), p < b.len() ==> !b[p].0.lt(k)
    ensures orank(b, k) == p
    decreases b.len()
{
    if p > 0 {
        assert(b[0].0.lt(k));
        let c = b.skip(1);
        assert forall|j: int| 0 <= j < p - 1 implies (#[trigger] c[j]).0.lt(k) by { assert(c[j] == b[j + 1]); }
        if p < b.len() { assert(c[p - 1] == b[p]); }
        lm_orank(c, k, p - 1);
    }
}
spec fn oleft<K: VxKey, V>(t: TS<OrdTrait<K, V>>, g: G, k: K, p: int) -> bool { 0 <= p <= g.lv[0].len() && forall|j: int| 0 <= j < p ==> (#[trigger] okey(t, g, j)).lt(k) }
spec fn oright<K: VxKey, V>(t: TS<OrdTrait<K, V>>, g: G, k: K, p: int) -> bool { 0 <= p <= g.lv[0].len() && forall|j: int| p <= j < g.lv[0].len() ==> k.lt(#[trigger] okey(t, g, j)) }
spec fn ofound<K: VxKey, V>(t: TS<OrdTrait<K, V>>, g: G, k: K, r: QueryResult) -> bool {
    let p = (g.lpos)(r.cursor.leaf.0);
    &&& t.leaves.contains_key(r.cursor.leaf.0) && 0 <= p < g.lv[0].len() && g.lv[0][p] == r.cursor.leaf.0
    &&& r.cursor.offset <= 1
    &&& if r.found { r.cursor.offset == 0 && oleft(t, g, k, p) && oright(t, g, k, p + 1) && !okey(t, g, p).lt(k) && !k.lt(okey(t, g, p)) }
        else { oleft(t, g, k, p + r.cursor.offset) && oright(t, g, k, p + r.cursor.offset) }
}
proof fn lm_oleft<K: VxKey, V>(t: TS<OrdTrait<K, V>>, g: G, k: K, p: int)
    requires osorted(t, g), 0 < p <= g.lv[0].len()
    ensures okey(t, g, p - 1).lt(k) ==> oleft(t, g, k, p)
{
    if okey(t, g, p - 1).lt(k) {
        assert forall|j: int| 0 <= j < p implies (#[trigger] okey(t, g, j)).lt(k) by { if j < p - 1 { K::law_trans(okey(t, g, j), okey(t, g, p - 1), k); } }
    }
}
proof fn lm_oright<K: VxKey, V>(t: TS<OrdTrait<K, V>>, g: G, k: K, p: int)
    requires osorted(t, g), 0 < p <= g.lv[0].len()
    ensures !okey(t, g, p - 1).lt(k) ==> oright(t, g, k, p), k.lt(okey(t, g, p - 1)) ==> oright(t, g, k, p - 1)
{
    assert forall|j: int| p <= j < g.lv[0].len() && !okey(t, g, p - 1).lt(k) implies k.lt(#[trigger] okey(t, g, j)) by { K::law_weak(okey(t, g, p - 1), k, okey(t, g, j)); }
    assert forall|j: int| p - 1 <= j < g.lv[0].len() && k.lt(okey(t, g, p - 1)) implies k.lt(#[trigger] okey(t, g, j)) by { if j > p - 1 { K::law_trans(k, okey(t, g, p - 1), okey(t, g, j)); } }
}
// every list of children is sorted
proof fn lm_oq_ok<K: VxKey, V>(t: TS<OrdTrait<K, V>>, g: G, h: int, i: int, q: OrdTrait<K, V>, k: K)
    requires t.shape(g), t.caches_ok(), osorted(t, g), 1 <= h < g.lv.len(), 0 <= i < g.lv[h].len(), g.lv[0].len() > 0
    ensures q.q_ok(k, t.nodes[g.lv[h][i]].ch)
{
    let m = g.lv[h][i];
    let f = (g.fst)(m);
    let ch = t.nodes[m].ch;
    t.lm_at(g, h, i);
    t.lm_node(g, m);
    assert forall|a: int| 0 <= a < ch.len() implies (#[trigger] ch[a]).cache is Some && !(ch[a].cache->0).1.lt((ch[a].cache->0).0) by {
        lm_okid(t, g, h, i, a);
        let (x, y) = (t.start(g, h - 1, f + a), t.start(g, h - 1, f + a + 1) - 1);
        K::law_irr(okey(t, g, x));
        if x < y && okey(t, g, y).lt(okey(t, g, x)) { K::law_trans(okey(t, g, x), okey(t, g, y), okey(t, g, x)); }
    }
    assert forall|a: int, b: int| 0 <= a < b < ch.len() implies (#[trigger] ch[a].cache->0).1.lt((#[trigger] ch[b].cache->0).0) by {
        lm_okid(t, g, h, i, a);
        lm_okid(t, g, h, i, b);
        t.lm_start(g, h - 1, f + a + 1, f + b);
    }
}
proof fn lm_ofst_is<K: VxKey, V>(ch: Seq<Child<OrdTrait<K, V>>>, t: K, i: int)
    requires 0 <= i <= ch.len()
    ensures ({ let j = ofst(ch, t, i); i <= j <= ch.len() && (j < ch.len() ==> !(ch[j].cache->0).1.lt(t)) && (j > i ==> (ch[j - 1].cache->0).1.lt(t)) })
    decreases ch.len() - i
{ if i < ch.len() && (ch[i].cache->0).1.lt(t) { lm_ofst_is(ch, t, i + 1); } }
proof fn lm_odesc<K: VxKey, V>(t: TS<OrdTrait<K, V>>, g: G, h: int, i: int, q: OrdTrait<K, V>, k: K, found: bool)
    requires t.shape(g), t.caches_ok(), osorted(t, g), 1 <= h < g.lv.len(), 0 <= i < g.lv[h].len(), g.lv[0].len() > 0,
        oleft(t, g, k, t.start(g, h, i)), oright(t, g, k, t.start(g, h, i + 1)),
        !found ==> k.lt(okey(t, g, t.start(g, h, i))) || okey(t, g, t.start(g, h, i + 1) - 1).lt(k)
    ensures t.descent_ok(g, q, k, g.lv[h][i]), ofound(t, g, k, t.descend(g, q, k, g.lv[h][i], found).0)
    decreases h
{
    let m = g.lv[h][i];
    let f = (g.fst)(m);
    let ch = t.nodes[m].ch;
    let n = ch.len() as int;
    t.lm_at(g, h, i);
    t.lm_node(g, m);
    t.lm_root(g);
    t.lm_end(g, h, i);
    lm_full(t, g, h - 1);
    t.lm_size(g, m);
    lm_oq_ok(t, g, h, i, q, k);
    lm_ofst_is(ch, k, 0);
    let o = ofst(ch, k, 0);
    let j = if o < n { o } else { n - 1 };
    let fr = q.q_node(k, ch).1;
    assert(fr.index == j);
    lm_okid(t, g, h, i, j);
    let (x, y) = (t.start(g, h - 1, f + j), t.start(g, h - 1, f + j + 1));
    if j > 0 {
        lm_okid(t, g, h, i, j - 1);
        lm_okid(t, g, h, i, 0);
        t.lm_start(g, h - 1, f + 1, f + j);
        if o == n { 
            // the last child lies before k, so does the one before it
            assert((ch[j - 1].cache->0).1.lt((ch[j].cache->0).0));
            K::law_weak((ch[j - 1].cache->0).1, k, (ch[j].cache->0).0);
            if k.lt((ch[j].cache->0).0) { K::law_trans((ch[j].cache->0).1, k, (ch[j].cache->0).0); }
        }
        lm_oleft(t, g, k, x);
        if k.lt(okey(t, g, t.start(g, h, i))) { K::law_trans(k, okey(t, g, t.start(g, h, i)), okey(t, g, x)); }
    }
    if j + 1 < n {
        lm_oright(t, g, k, y);
        lm_okid(t, g, h, i, n - 1);
        t.lm_start(g, h - 1, f + j + 1, f + n - 1);
        if okey(t, g, t.start(g, h, i + 1) - 1).lt(k) { K::law_trans(okey(t, g, y - 1), okey(t, g, t.start(g, h, i + 1) - 1), k); }
    }
    let ok = found && fr.found;
    assert(!ok ==> k.lt(okey(t, g, x)) || okey(t, g, y - 1).lt(k));
    t.lm_child(g, m, j);
    t.lm_at(g, h - 1, f + j);
    if h == 1 {
        let l = g.lv[0][f + j];
        assert(x == f + j && y == f + j + 1);
        let p = f + j;
        lm_oleft(t, g, k, p + 1);
        lm_oright(t, g, k, p + 1);
    } else {
        let c = g.lv[h - 1][f + j];
        t.lm_node(g, c);
        lm_odesc(t, g, h - 1, f + j, q, k, ok);
    }
}
impl<K: VxKey, V> BTree<OrdTrait<K, V>> {
    proof fn lm_oquery(&self, k: K)
        requires self.ts().shape(self.g@), self.ts().caches_ok(), osorted(self.ts(), self.g@), self.order().len() > 0
        ensures ({
            let t = self.ts();
            let g = self.g@;
            let q = <OrdTrait<K, V> as Query<OrdTrait<K, V>>>::q_init(k);
            let r = t.descend(g, q, k, t.rt(), true).0;
            let b = obinds(t, g);
            let p = (g.lpos)(r.cursor.leaf.0);
            &&& t.descent_ok(g, q, k, t.rt())
            &&& ofound(t, g, k, r)
            &&& orank(b, k) == p + r.cursor.offset && r.found == ohit(b, k)
        })
    {
        let t = self.ts();
        let g = self.g@;
        let q = <OrdTrait<K, V> as Query<OrdTrait<K, V>>>::q_init(k);
        let h = g.lv.len() - 1;
        t.lm_root(g);
        lm_start0(t, g, h);
        t.lm_end(g, h, 0);
        lm_oend(t, g, h);
        lm_odesc(t, g, h, 0, q, k, true);
        let r = t.descend(g, q, k, t.rt(), true).0;
        let b = obinds(t, g);
        let p = (g.lpos)(r.cursor.leaf.0) + r.cursor.offset;
        assert forall|j: int| 0 <= j < p implies (#[trigger] b[j]).0.lt(k) by { assert(okey(t, g, j).lt(k)); }
        if p < b.len() {
            assert(b[p].0 == okey(t, g, p));
            if !r.found && b[p].0.lt(k) { K::law_trans(k, b[p].0, k); K::law_irr(k); }
        }
        lm_orank(b, k, p);
    }
}
proof fn lm_oend<B: BTreeTrait>(t: TS<B>, g: G, h: int)
    requires t.lnk(g), 0 <= h < g.lv.len()
    ensures t.start(g, h, g.lv[h].len() as int) == g.lv[0].len()
{}
// ---- sorted lists of bindings as maps
spec fn bsorted<K: VxKey, V>(b: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).0.lt((#[trigger] b[j]).0) }
spec fn bput<K: VxKey, V>(b: Seq<(K, V)>, k: K, v: V) -> Seq<(K, V)> {
    let i = orank(b, k);
    if ohit(b, k) { b.update(i, (b[i].0, v)) } else { b.insert(i, (k, v)) }
}
spec fn bdel<K: VxKey, V>(b: Seq<(K, V)>, k: K) -> Seq<(K, V)> { if ohit(b, k) { b.remove(orank(b, k)) } else { b } }
// what the map holds for a key
spec fn bget<K: VxKey, V>(b: Seq<(K, V)>, k: K) -> Option<V> { if ohit(b, k) { Some(b[orank(b, k)].1) } else { None } }
spec fn same_key<K: VxKey>(a: K, b: K) -> bool { !a.lt(b) && !b.lt(a) }
proof fn lm_rank<K: VxKey, V>(b: Seq<(K, V)>, k: K)
    requires bsorted(b)
    ensures ({
        let p = orank(b, k);
        &&& 0 <= p <= b.len() && (forall|j: int| 0 <= j < p ==> (#[trigger] b[j]).0.lt(k)) && (p < b.len() ==> !b[p].0.lt(k))
        &&& forall|j: int| p < j < b.len() ==> k.lt((#[trigger] b[j]).0)
        &&& !ohit(b, k) ==> forall|j: int| p <= j < b.len() ==> k.lt((#[trigger] b[j]).0)
    })
    decreases b.len()
{
    if b.len() > 0 && b[0].0.lt(k) {
        let c = b.skip(1);
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).0.lt((#[trigger] c[j]).0) by { assert(c[i] == b[i + 1] && c[j] == b[j + 1]); }
        lm_rank(c, k);
        let p = orank(b, k);
        assert forall|j: int| 0 <= j < p implies (#[trigger] b[j]).0.lt(k) by { if j > 0 { assert(b[j] == c[j - 1]); } }
        if p < b.len() { assert(b[p] == c[p - 1]); }
    }
    let p = orank(b, k);
    assert forall|j: int| p < j < b.len() implies k.lt((#[trigger] b[j]).0) by { K::law_weak(b[p].0, k, b[j].0); }
}
// the laws of a map, for every history
proof fn lm_bput<K: VxKey, V>(b: Seq<(K, V)>, k: K, v: V, x: K)
    requires bsorted(b)
    ensures /*C02*/ bsorted(bput(b, k, v)), /*C02*/ bget(bput(b, k, v), x) == (if same_key(k, x) { Some(v) } else { bget(b, x) })
{
    let c = bput(b, k, v);
    let p = orank(b, k);
    lm_rank(b, k);
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).0.lt((#[trigger] c[j]).0) by {
        if ohit(b, k) { assert(b[i].0.lt(b[j].0)); }
        else {
            if i < p && j > p { assert(c[j] == b[j - 1]); assert(b[i].0.lt(b[j - 1].0)); }
            else if i > p { assert(c[j] == b[j - 1] && c[i] == b[i - 1]); assert(b[i - 1].0.lt(b[j - 1].0)); }
            else if i == p { assert(c[j] == b[j - 1]); }
            else if j == p { assert(b[i].0.lt(k)); }
            else { assert(b[i].0.lt(b[j].0)); }
        }
    }
    lm_bsame(b, x);
    if same_key(k, x) {
        if ohit(b, k) { lm_eq(b[p].0, k, x); }
        lm_find(c, x, p);
    } else if ohit(b, x) {
        let q = orank(b, x);
        if ohit(b, k) && q == p { lm_eq(k, b[p].0, x); }
        let q1 = if ohit(b, k) || q < p { q } else { q + 1 };
        assert(c[q1].0 == b[q].0 && c[q1].1 == b[q].1);
        lm_find(c, x, q1);
    } else {
        assert forall|j: int| 0 <= j < c.len() implies !same_key((#[trigger] c[j]).0, x) by {
            if ohit(b, k) { assert(c[j].0 == b[j].0); } else if j < p { assert(c[j] == b[j]); } else if j > p { assert(c[j] == b[j - 1]); }
        }
        lm_bsame(c, x);
    }
}
proof fn lm_bdel<K: VxKey, V>(b: Seq<(K, V)>, k: K, x: K)
    requires bsorted(b)
    ensures /*C02*/ bsorted(bdel(b, k)), /*C02*/ bget(bdel(b, k), x) == (if same_key(k, x) { None } else { bget(b, x) })
{
    let c = bdel(b, k);
    let p = orank(b, k);
    lm_rank(b, k);
    lm_bsame(b, k);
    lm_bsame(b, x);
    if ohit(b, k) {
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).0.lt((#[trigger] c[j]).0) by {
            assert(c[i] == b[if i < p { i } else { i + 1 }] && c[j] == b[if j < p { j } else { j + 1 }]);
            assert(b[if i < p { i } else { i + 1 }].0.lt(b[if j < p { j } else { j + 1 }].0));
        }
        lm_bsame(c, x);
        if same_key(k, x) {
            assert forall|j: int| 0 <= j < c.len() implies !same_key((#[trigger] c[j]).0, x) by {
                let i = if j < p { j } else { j + 1 };
                assert(c[j] == b[i]);
                if same_key(b[i].0, x) { lm_eq(b[i].0, x, k); lm_find(b, k, i); }
            }
        } else if ohit(b, x) {
            let q = orank(b, x);
            if q == p { lm_eq(k, b[p].0, x); }
            let q1 = if q < p { q } else { q - 1 };
            assert(c[q1] == b[q]);
            lm_find(c, x, q1);
        } else {
            assert forall|j: int| 0 <= j < c.len() implies !same_key((#[trigger] c[j]).0, x) by { assert(c[j] == b[if j < p { j } else { j + 1 }]); }
        }
    } else if same_key(k, x) && ohit(b, x) {
        let q = orank(b, x);
        lm_eq(b[q].0, x, k);
    }
}
proof fn lm_eq<K: VxKey>(a: K, b: K, c: K)
    requires same_key(a, b), same_key(b, c)
    ensures same_key(a, c)
{
    if a.lt(c) { K::law_weak(a, b, c); }
    if c.lt(a) { K::law_weak(c, b, a); }
}
proof fn lm_find<K: VxKey, V>(b: Seq<(K, V)>, x: K, i: int)
    requires bsorted(b), 0 <= i < b.len(), same_key(b[i].0, x)
    ensures orank(b, x) == i, ohit(b, x)
{
    assert forall|j: int| 0 <= j < i implies (#[trigger] b[j]).0.lt(x) by { K::law_weak(b[j].0, x, b[i].0); }
    lm_orank(b, x, i);
}
proof fn lm_bsame<K: VxKey, V>(b: Seq<(K, V)>, x: K)
    requires bsorted(b)
    ensures ohit(b, x) ==> 0 <= orank(b, x) < b.len() && same_key(b[orank(b, x)].0, x),
        !ohit(b, x) ==> forall|j: int| 0 <= j < b.len() ==> !same_key((#[trigger] b[j]).0, x),
        (forall|j: int| 0 <= j < b.len() ==> !same_key((#[trigger] b[j]).0, x)) ==> !ohit(b, x)
{
    lm_rank(b, x);
}
impl<B: BTreeTrait> TS<B> {
    // another element with the same summary
    proof fn lm_same_ec(self, g: G, rc: B::Cache, l: RawArenaIndex, e: B::Elem)
        requires self.leaves.contains_key(l), self.caches_ok(), self.root_cache_ok(rc), B::ec(e) == B::ec(self.leaves[l].elem)
        ensures self.set_elem(l, e).caches_ok(), self.set_elem(l, e).root_cache_ok(rc)
    {
        let t = self.set_elem(l, e);
        reveal(TS::caches_ok);
        assert forall|a: ArenaIndex| #[trigger] t.kc(a) == self.kc(a) by { match a { ArenaIndex::Leaf(x) => {}, ArenaIndex::Internal(n) => { assert(t.kids(n) == self.kids(n)); } } }
        assert forall|m: RawArenaIndex| #[trigger] t.cache_ok(m) by { assert(self.cache_ok(m)); }
    }
    proof fn lm_order_dom(self, g: G)
        requires self.lnk(g)
        ensures g.lv[0].to_set() =~= self.leaves.dom(), g.lv[0].no_duplicates(), self.leaves.dom().finite(), self.leaves.dom().len() == g.lv[0].len()
    {
        self.lm_root(g);
        assert forall|l: RawArenaIndex| g.lv[0].to_set().contains(l) == #[trigger] self.leaves.dom().contains(l) by {
            if self.leaves.contains_key(l) { self.lm_leaf(g, l); assert(g.lv[0][(g.lpos)(l)] == l); }
            if g.lv[0].contains(l) { let i = choose|i: int| 0 <= i < g.lv[0].len() && g.lv[0][i] == l; self.lm_at(g, 0, i); }
        }
        assert forall|i: int, j: int| 0 <= i < g.lv[0].len() && 0 <= j < g.lv[0].len() && i != j implies g.lv[0][i] != g.lv[0][j] by { self.lm_at(g, 0, i); self.lm_at(g, 0, j); }
        g.lv[0].unique_seq_to_set();
        assert(g.lv[0].to_set() =~= self.leaves.dom());
    }
}
proof fn lm_osorted<K: VxKey, V>(t: TS<OrdTrait<K, V>>, g: G)
    ensures osorted(t, g) == bsorted(obinds(t, g))
{
    let b = obinds(t, g);
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0 == okey(t, g, i) by {}
    if osorted(t, g) { assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0.lt((#[trigger] b[j]).0) by { assert(okey(t, g, i).lt(okey(t, g, j))); } }
    if bsorted(b) { assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] okey(t, g, i)).lt(#[trigger] okey(t, g, j)) by { assert(b[i].0.lt(b[j].0)); } }
}
impl<Key: VxKey, Value> OrdTreeMap<Key, Value> {
    spec fn binds(&self) -> Seq<(Key, Value)> { obinds(self.tree.ts(), self.tree.g@) }
    spec fn good(&self) -> bool {
        &&& self.tree.inv() && self.tree.ts().fat(self.tree.g@)
        &&& bsorted(self.binds()) && self.len == self.binds().len()
    }
    proof fn lm_count(&self)
        requires self.good()
        ensures self.len <= 0xffff_ffff
    { self.tree.ts().lm_order_dom(self.tree.g@); self.tree.leaf_nodes.axiom_len(); }
//@ code src/generic_impl/ord.rs "OrdTreeMap::new" tags=C02
    fn new() -> «(r:» Self«)
        ensures /*C02*/ r.good(), /*C02*/ r.binds().len() == 0»
    {
        «let r =» Self {
            tree: BTree::new(),
            len: 0,
        }«;
        proof { reveal(TS::fat); r.tree.ts().lm_root(r.tree.g@); r.tree.lm_empty(); assert forall|y: RawArenaIndex| #[trigger] r.tree.ts().fat_ok(r.tree.g@, y) by { r.tree.lm_ts(); } }
        r»
    }
//@ end
//@ code src/generic_impl/ord.rs "OrdTreeMap::insert" tags=C02,C16
    fn insert(&mut self, key: Key, value: Value)«
        requires old(self).good()
        ensures /*C02*/ final(self).good(), /*C02*/ final(self).binds() == bput(old(self).binds(), key, value)»
    {
        «let ghost o = self.tree; let ghost t0 = o.ts(); let ghost g = o.g@; let ghost b = self.binds(); let ghost kv = (key, value);
        proof { self.lm_count(); lm_osorted(t0, g); t0.lm_root(g); if o.order().len() > 0 { o.lm_oquery(key); } lm_rank(b, key); lm_bput(b, key, value, key); }»
        let Some(result) = self.tree.query::<OrdTrait<Key, Value>>(&key) else {
            self.len += 1;
            «let vx_c =» self.tree.push(Unmergeable((key, value)));
            «proof {
                let n = vx_c.leaf.0;
                assert(self.tree.el(n).len() == 1);
                assert(self.tree.el(n).subrange(0, 1) =~= self.tree.el(n));
                assert(self.tree.el(n)[0] == kv);
                assert(self.binds() =~= bput(b, key, value));
            }»
            return;
        };

        «let ghost l = result.cursor.leaf.0; let ghost q = (g.lpos)(l); let ghost p = t0.leaves[l].parent; let ghost ip = q + result.cursor.offset;
        proof { t0.lm_par(g, ArenaIndex::Leaf(l)); t0.lm_node(g, p); t0.lm_order_dom(g); o.lm_used(&o); }»
        if !result.found {
            self.len += 1;
            let tree = &mut self.tree;
            let data = Unmergeable((key, value));
            let index = result.leaf();
            let leaf = tree.leaf_nodes.get_mut(index.0).unwrap();
            let parent = leaf.parent();

            let mut is_full = false;
            if result.cursor.offset == 0 && data.can_merge(&leaf.elem) {
                leaf.elem.merge_left(&data);
            } else if result.cursor.offset == leaf.elem.rle_len() && leaf.elem.can_merge(&data) {
                leaf.elem.merge_right(&data);
            } else {
                «proof { assert(tree.leaf_nodes@ =~= o.leaf_nodes@); }»
                let child = tree.alloc_leaf_child(data, parent.unwrap_internal());
                «let ghost n = child.arena.ix();
                proof {
                    assert(tree.tidy().leaves =~= t0.leaves);
                    assert(tree.tidy() == t0);
                    assert(!tree.ts().shape(tree.g@)) by { if tree.ts().shape(tree.g@) { tree.ts().lm_order_dom(g); assert(tree.ts().leaves.dom().contains(n)); assert(g.lv[0].to_set().contains(n)); } }
                    assert(tree.vs() == t0);
                    assert(!tree.inv());
                }»
                let SplitInfo {
                    parent_idx: parent_index,
                    insert_slot: insert_index,
                    ..
                } = tree.split_leaf_if_needed(result.cursor);
                «let ghost t2 = t0.put(p, insert_index as int, n, Unmergeable(kv), OrdTrait::<Key, Value>::ec(Unmergeable(kv)));
                let ghost g1 = g_ins(g, 0, (g.fst)(p) + insert_index, p, n, 0);
                proof {
                    t0.lm_roomy(p); t0.lm_cx_of(ArenaIndex::Internal(p));
                    t0.lm_put(g, p, insert_index as int, n, Unmergeable(kv), OrdTrait::<Key, Value>::ec(Unmergeable(kv)));
                    t0.lm_put_fat(g, p, insert_index as int, n, Unmergeable(kv), OrdTrait::<Key, Value>::ec(Unmergeable(kv)));
                    t0.lm_added(g, o.root_cache, p, insert_index as int, n, Unmergeable(kv));
                    assert(t0.nodes[p] == ns(tree.in_nodes@[p]));
                }»
                let parent = tree.in_nodes.get_mut(parent_index).unwrap();
                parent.children.insert(insert_index, child).unwrap();
                is_full = parent.is_full();
                «proof {
                    tree.g = Ghost(g1);
                    assert(ns(tree.in_nodes@[p]).ch =~= t2.nodes[p].ch);
                    assert(tree.ts().nodes =~= t2.nodes);
                    assert(tree.ts().leaves =~= t2.leaves);
                    assert(tree.ts() == t2);
                    if !is_full { t2.lm_roomy_all(p); }
                    assert(obinds(t2, g1) =~= bput(b, key, value)) by {
                        assert forall|j: int| 0 <= j < g.lv[0].len() implies t2.same_leaf(t0, #[trigger] g.lv[0][j]) && t0.leaves.contains_key(g.lv[0][j]) by {
                            t0.lm_at(g, 0, j);
                            t2.lm_same_but(t0, n, n, n, g.lv[0][j]);
                        }
                    }
                }»
            }
            «let ghost u = *tree; let ghost tu = u.ts();
            »
            tree.recursive_update_cache(parent, false, None);
            «let ghost v = *tree;
            proof {
                tu.lm_sim(v.ts(), u.g@);
                tu.lm_sim_fat(v.ts(), u.g@, p);
                v.lm_same_refl(&u);
                v.ts().lm_same_elems(tu);
                if is_full { tu.lm_sim_roomy(v.ts(), p); tu.lm_sim1(v.ts(), p); }
                lm_binds_same(v.ts(), tu, u.g@);
            }»
            if is_full {
                tree.split(parent);
                «proof { tree.ts().lm_same_elems(v.ts()); lm_binds_same(tree.ts(), v.ts(), v.g@); assert(obinds(tree.ts(), tree.g@) =~= obinds(tree.ts(), v.g@)); }»
            }
        } else {
            let leaf = self.tree.get_elem_mut(result.leaf()).unwrap();
            leaf.0 .1 = value;
            «proof {
                let e = self.tree.leaf_nodes@[l].elem;
                let t = t0.set_elem(l, e);
                assert(self.tree.ts().nodes =~= t.nodes);
                assert(self.tree.ts().leaves =~= t.leaves);
                assert(self.tree.ts() == t);
                t0.lm_set_elem(g, l, e);
                t0.lm_same_ec(g, o.root_cache, l, e);
                t0.lm_nodes_fat(t, g);
                assert(self.binds() =~= bput(b, key, value)) by {
                    assert forall|j: int| 0 <= j < g.lv[0].len() implies (g.lpos)(#[trigger] g.lv[0][j]) == j by { t0.lm_at(g, 0, j); }
                }
            }»
        }
    }
//@ end
//@ code src/generic_impl/ord.rs "OrdTreeMap::delete" tags=C02,C16
    fn delete(&mut self, key: &Key) -> «(r:» Option<(Key, Value)>«)
        requires old(self).good()
        ensures /*C02*/ final(self).good(), /*C02*/ final(self).binds() == bdel(old(self).binds(), *key),
            /*C02*/ r == (if ohit(old(self).binds(), *key) { Some(old(self).binds()[orank(old(self).binds(), *key)]) } else { None })»
    {
        «let ghost o = self.tree; let ghost t0 = o.ts(); let ghost g = o.g@; let ghost b = self.binds();
        proof { lm_osorted(t0, g); t0.lm_root(g); if o.order().len() > 0 { o.lm_oquery(*key); } lm_rank(b, *key); lm_bdel(b, *key, *key); }»
        let q = self.tree.query::<OrdTrait<Key, Value>>(key)?;
        if !q.found {
            return None;
        }

        match self.tree.remove_leaf(q.cursor) {
            Some(v) => {
                «proof {
                    let l = q.cursor.leaf.0;
                    let i = (g.lpos)(l);
                    assert(obinds(self.tree.ts(), self.tree.g@) =~= bdel(b, *key)) by {
                        assert forall|j: int| 0 <= j < g.lv[0].len() && j != i implies self.tree.ts().same_leaf(t0, #[trigger] g.lv[0][j]) && t0.leaves.contains_key(g.lv[0][j]) by {
                            t0.lm_at(g, 0, j);
                            self.tree.ts().lm_same_but(t0, l, l, l, g.lv[0][j]);
                        }
                    }
                    assert(v.0 == b[i]);
                }»
                self.len -= 1;
                Some(v.0)
            }
            None => None,
        }
    }
//@ end
//@ code src/generic_impl/ord.rs "OrdTreeMap::len" tags=C02
    fn len(&self) -> «(r:» usize«)
        requires self.good()
        ensures /*C02*/ r == self.binds().len()»
    {
        self.len
    }
//@ end
//@ code src/generic_impl/ord.rs "OrdTreeMap::is_empty" tags=C02
    fn is_empty(&self) -> «(r:» bool«)
        requires self.good()
        ensures /*C02*/ r == (self.binds().len() == 0)»
    {
        self.len == 0
    }
//@ end
//@ code src/generic_impl/ord.rs "Default for OrdTreeMap::default" tags=C02
    fn default() -> «(r:» Self«)
        ensures /*C02*/ r.good(), r.binds().len() == 0»
    {
        Self::new()
    }
//@ end
}
proof fn lm_binds_same<K: VxKey, V>(t: TS<OrdTrait<K, V>>, o: TS<OrdTrait<K, V>>, g: G)
    requires t.same_leaves(o), o.lnk(g)
    ensures obinds(t, g) == obinds(o, g)
{
    o.lm_root(g);
    assert forall|j: int| 0 <= j < g.lv[0].len() implies #[trigger] obinds(t, g)[j] == obinds(o, g)[j] by { o.lm_at(g, 0, j); t.lm_same_leaf(o, g.lv[0][j]); }
    assert(obinds(t, g) =~= obinds(o, g));
}
impl<Key: VxKey> OrdTreeSet<Key> {
//@ code src/generic_impl/ord.rs "OrdTreeSet::new" tags=C02
    fn new() -> «(r:» Self«)
        ensures /*C02*/ r.0.good(), r.0.binds().len() == 0»
    {
        Self(OrdTreeMap::new())
    }
//@ end
//@ code src/generic_impl/ord.rs "OrdTreeSet::insert" tags=C02
    fn insert(&mut self, key: Key)«
        requires old(self).0.good()
        ensures /*C02*/ final(self).0.good(), final(self).0.binds() == bput(old(self).0.binds(), key, ())»
    {
        self.0.insert(key, ());
    }
//@ end
//@ code src/generic_impl/ord.rs "OrdTreeSet::delete" tags=C02
    fn delete(&mut self, key: &Key) -> «(r:» bool«)
        requires old(self).0.good()
        ensures /*C02*/ final(self).0.good(), final(self).0.binds() == bdel(old(self).0.binds(), *key), /*C02*/ r == ohit(old(self).0.binds(), *key)»
    {
        self.0.delete(key).is_some()
    }
//@ end
//@ code src/generic_impl/ord.rs "OrdTreeSet::len" tags=C02
    fn len(&self) -> «(r:» usize«)
        requires self.0.good()
        ensures /*C02*/ r == self.0.binds().len()»
    {
        self.0.len
    }
//@ end
//@ code src/generic_impl/ord.rs "OrdTreeSet::is_empty" tags=C02
    fn is_empty(&self) -> «(r:» bool«)
        requires self.0.good()
        ensures /*C02*/ r == (self.0.binds().len() == 0)»
    {
        self.0.len == 0
    }
//@ end
//@ code src/generic_impl/ord.rs "Default for OrdTreeSet::default" tags=C02
    fn default() -> «(r:» Self«)
        ensures /*C02*/ r.0.good(), r.0.binds().len() == 0»
    {
        Self::new()
    }
//@ end
}
