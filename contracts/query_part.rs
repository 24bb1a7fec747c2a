// Queries: the descent (for every lawful Query) and LengthFinder (C06).
//@ rw for ($i_i, $i_c) in $i_s.iter().enumerate() { ==> for $i_i in 0..$i_s.len() { let $i_c = &$i_s[$i_i];
//@ rw crate::FindResult ==> FindResult
//@ rw crate::Child<B> ==> Child<B>
//@ rw Option<Index> ==> Option<RawArenaIndex>
//@ rw fn elem<'b, Elem: Debug, ==> fn elem<'b, Elem,
//@ rw _: &Self::QueryArg ==> _t: &Self::QueryArg
//@ code src/lib.rs "struct FindResult" tags=
struct FindResult {
    index: usize,
    offset: usize,
    found: bool,
}
//@ end
impl FindResult {
//@ code src/lib.rs "FindResult::new_found" tags=
    fn new_found(index: usize, offset: usize) -> «(r:» Self«)
        ensures r == (FindResult { index, offset, found: true })»
    {
        Self {
            index,
            offset,
            found: true,
        }
    }
//@ end
//@ code src/lib.rs "FindResult::new_missing" tags=
    fn new_missing(index: usize, offset: usize) -> «(r:» Self«)
        ensures r == (FindResult { index, offset, found: false })»
    {
        Self {
            index,
            offset,
            found: false,
        }
    }
//@ end
}
impl QueryResult {
//@ code src/lib.rs "QueryResult::cursor" tags=C06
    fn cursor(&self) -> «(r:» Cursor«)
        ensures r == self.cursor»
    {
        self.cursor
    }
//@ end
//@ code src/lib.rs "QueryResult::leaf" tags=C06
    fn leaf(&self) -> «(r:» LeafIndex«)
        ensures r == self.cursor.leaf»
    {
        self.cursor().leaf
    }
//@ end
//@ code src/lib.rs "QueryResult::offset" tags=C06
    fn offset(&self) -> «(r:» usize«)
        ensures r == self.cursor.offset»
    {
        self.cursor().offset
    }
//@ end
//@ code src/lib.rs "QueryResult::found" tags=C06
    fn found(&self) -> «(r:» bool«)
        ensures r == self.found»
    {
        self.found
    }
//@ end
//@ code src/lib.rs "QueryResult::arena" tags=C06
    fn arena(&self) -> «(r:» RawArenaIndex«)
        ensures r == self.cursor.leaf.0»
    {
        self.cursor.leaf.0
    }
//@ end
//@ code src/lib.rs "QueryResult::elem" tags=C06,C07
    fn elem<'b, Elem, B: BTreeTrait<Elem = Elem>>(
        &self,
        tree: &'b BTree<B>,
    ) -> «(r:» Option<&'b Elem>«)
        ensures match r { Some(e) => tree.has(self.cursor.leaf) && *e == tree.leaf_nodes@[self.cursor.leaf.0].elem, None => !tree.has(self.cursor.leaf) }»
    {
        tree.leaf_nodes.get(self.cursor().leaf.0).map(|x«: &'b LeafNode<Elem>»| «-> (r: &'b Elem) ensures *r == x.elem {» &x.elem «}»)
    }
//@ end
}
trait Query<B: BTreeTrait>: Sized {
//@ code src/lib.rs "trait Query::type QueryArg" tags=
    type QueryArg: Clone;
//@ end
    // what the three methods compute
    spec fn q_init(t: Self::QueryArg) -> Self;
    spec fn q_node(self, t: Self::QueryArg, ch: Seq<Child<B>>) -> (Self, FindResult);
    spec fn q_elem(self, t: Self::QueryArg, e: B::Elem) -> (Self, usize, bool);
    // what find_node needs of the list it is given
    spec fn q_ok(self, t: Self::QueryArg, ch: Seq<Child<B>>) -> bool;
//@ code src/lib.rs "trait Query::init" tags=C06
    fn init(target: &Self::QueryArg) -> «(r:» Self«)
        ensures r == Self::q_init(*target)»;
//@ end
//@ code src/lib.rs "trait Query::find_node" tags=C06,C16
    fn find_node(&mut self, target: &Self::QueryArg, child_caches: &[Child<B>]) -> «(r:» FindResult«)
        requires 0 < child_caches@.len() <= MAX_CHILDREN_NUM, old(self).q_ok(*target, child_caches@)
        ensures (*final(self), r) == old(self).q_node(*target, child_caches@), r.index < child_caches@.len()»;
//@ end
//@ code src/lib.rs "trait Query::confirm_elem" tags=C06,C16
    fn confirm_elem(&mut self, q: &Self::QueryArg, elem: &B::Elem) -> «(r:» (usize, bool)«)
        requires elem.ok()
        ensures (*final(self), r.0, r.1) == old(self).q_elem(*q, *elem)»;
//@ end
}
impl<B: BTreeTrait> TS<B> {
    // where the descent from m leads
    spec fn descend<Q: Query<B>>(self, g: G, q: Q, t: Q::QueryArg, m: RawArenaIndex, found: bool) -> (QueryResult, Q)
        decreases (g.ht)(m)
    {
        let (q1, fr) = q.q_node(t, self.nodes[m].ch);
        let a = self.nodes[m].ch[fr.index as int].arena;
        match a {
            ArenaIndex::Leaf(l) => {
                let (q2, offset, hit) = q1.q_elem(t, self.leaves[l].elem);
                (QueryResult { cursor: Cursor { leaf: LeafIndex(l), offset }, found: found && fr.found && hit }, q2)
            }
            ArenaIndex::Internal(n) => if 0 <= (g.ht)(n) < (g.ht)(m) { self.descend(g, q1, t, n, found && fr.found) } else { arbitrary() },
        }
    }
    // find_node gets what it needs on the way down
    spec fn descent_ok<Q: Query<B>>(self, g: G, q: Q, t: Q::QueryArg, m: RawArenaIndex) -> bool
        decreases (g.ht)(m)
    {
        let (q1, fr) = q.q_node(t, self.nodes[m].ch);
        q.q_ok(t, self.nodes[m].ch) && match self.nodes[m].ch[fr.index as int].arena {
            ArenaIndex::Leaf(l) => true,
            ArenaIndex::Internal(n) => 0 <= (g.ht)(n) < (g.ht)(m) ==> self.descent_ok(g, q1, t, n),
        }
    }
}
impl<B: BTreeTrait> BTree<B> {
//@ code src/lib.rs "BTree::query_with_finder_return" tags=C06,C16
    fn query_with_finder_return<Q>(&self, query: &Q::QueryArg) -> «(r:» (Option<QueryResult>, Q)«)»
    where
        Q: Query<B>,
«        requires self.ts().shape(self.g@), self.ts().elems_ok(),
            self.order().len() > 0 ==> self.ts().descent_ok(self.g@, Q::q_init(*query), *query, self.ts().rt())
        ensures
            self.order().len() == 0 ==> r.0 is None && r.1 == Q::q_init(*query),
            self.order().len() > 0 ==> r.0 is Some && (r.0->0, r.1) == self.ts().descend(self.g@, Q::q_init(*query), *query, self.ts().rt(), true)»
    {
        «let ghost ts = self.ts();
        let ghost g = self.g@;
        let ghost mut m = ts.rt();
        proof { self.lm_ts(); ts.lm_root(g); }»
        let mut finder = Q::init(query);
        if self.is_empty() {
            return (None, finder);
        }

        let mut node = self.in_nodes.get(self.root.unwrap()).unwrap();
        let mut index;
        let mut found = true;
        «#[verifier::loop_isolation(false)]»
        loop
            «invariant
                ts.nodes.contains_key(m), *node == self.in_nodes@[m], ts.n(m) > 0, ts.descent_ok(g, finder, *query, m),
                ts.descend(g, finder, *query, m, found) == ts.descend(g, Q::q_init(*query), *query, ts.rt(), true),
            decreases (g.ht)(m)»
        {
            «proof { self.lm_ts(); ts.lm_node(g, m); }
            let ghost q0 = finder;»
            let result = finder.find_node(query, &node.children);
            assert!(!node.children.is_empty());
            let i = result.index;
            «proof {
                ts.lm_child(g, m, i as int);
                assert(ts.nodes[m].ch[i as int].arena == node.children@[i as int].arena);
                if node.children@[i as int].arena is Leaf { ts.lm_elems_ok(node.children@[i as int].arena.ix()); }
            }»
            found = found && result.found;
            index = node.children[i].arena;
            match index {
                ArenaIndex::Internal(index) => {
                    «proof { m = index; ts.lm_node(g, m); }»
                    node = self.in_nodes.get(index).unwrap();
                }
                ArenaIndex::Leaf(_) => {
                    let (offset, leaf_found) = finder.confirm_elem(
                        query,
                        &self.leaf_nodes.get(index.unwrap_leaf()).unwrap().elem,
                    );
                    return (
                        Some(QueryResult {
                            cursor: Cursor {
                                leaf: index.unwrap_leaf().into(),
                                offset,
                            },
                            found: found && leaf_found,
                        }),
                        finder,
                    );
                }
            }
        }
    }
//@ end
//@ code src/lib.rs "BTree::query" tags=C06,C16
    fn query<Q>(&self, query: &Q::QueryArg) -> «(r:» Option<QueryResult>«)»
    where
        Q: Query<B>,
«        requires self.ts().shape(self.g@), self.ts().elems_ok(),
            self.order().len() > 0 ==> self.ts().descent_ok(self.g@, Q::q_init(*query), *query, self.ts().rt())
        ensures r == (if self.order().len() == 0 { None::<QueryResult> } else {
            Some(self.ts().descend(self.g@, Q::q_init(*query), *query, self.ts().rt(), true).0) })»
    {
        self.query_with_finder_return::<Q>(query).0
    }
//@ end
//@ code src/lib.rs "BTree::range" tags=C06,C16
    fn range<Q>(&self, range: Range<Q::QueryArg>) -> «(r:» Option<Range<QueryResult>>«)»
    where
        Q: Query<B>,
«        requires self.ts().shape(self.g@), self.ts().elems_ok(),
            self.order().len() > 0 ==> self.ts().descent_ok(self.g@, Q::q_init(range.start), range.start, self.ts().rt()),
            self.order().len() > 0 ==> self.ts().descent_ok(self.g@, Q::q_init(range.end), range.end, self.ts().rt()),
        ensures r is None == (self.order().len() == 0),
            r is Some ==> r->0.start == self.ts().descend(self.g@, Q::q_init(range.start), range.start, self.ts().rt(), true).0
                && r->0.end == self.ts().descend(self.g@, Q::q_init(range.end), range.end, self.ts().rt(), true).0»
    {
        if self.is_empty() {
            return None;
        }

        Some(self.query::<Q>(&range.start).unwrap()..self.query::<Q>(&range.end).unwrap())
    }
//@ end
}

// ---- LengthFinder
//@ code src/generic_impl/len_finder.rs "struct LengthFinder" tags=
struct LengthFinder {
    left: usize,
    slot: u8,
    parent: Option<RawArenaIndex>,
}
//@ end
spec const TOTAL: int = 0x7fff_ffff_ffff_ffff;   // contents are shorter than 2^63
spec fn isum(s: Seq<int>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { isum(s.drop_last()) + s.last() } }
trait UseLengthFinder<B: BTreeTrait> {
    spec fn gl(cache: B::Cache) -> int;
    proof fn law_len_sum(c: Seq<B::Cache>)
        requires forall|i: int| 0 <= i < c.len() ==> #[trigger] Self::gl(c[i]) >= 0, c.len() > 0,
            isum(c.map_values(|x: B::Cache| Self::gl(x))) <= TOTAL,
        ensures Self::gl(B::sum(c)) == isum(c.map_values(|x: B::Cache| Self::gl(x)));
    proof fn law_len_elem(e: B::Elem)
        requires e.ok(), e.content().len() <= TOTAL
        ensures Self::gl(B::ec(e)) == e.content().len();
//@ code src/generic_impl/len_finder.rs "trait UseLengthFinder::get_len" tags=C06
    fn get_len(cache: &B::Cache) -> «(r:» usize«)
        requires Self::gl(*cache) >= 0
        ensures r == Self::gl(*cache)»;
//@ end
}
spec fn gl<B: BTreeTrait + UseLengthFinder<B>>(c: B::Cache) -> int { <B as UseLengthFinder<B>>::gl(c) }
// (index, what is left, found) of the scan from child i on
spec fn lf_scan<B: BTreeTrait + UseLengthFinder<B>>(ch: Seq<Child<B>>, i: int, left: int, last: int) -> (int, int, bool)
    decreases ch.len() - i
{
    if i < 0 || i >= ch.len() { (ch.len() - 1, last, false) }
    else if left >= gl::<B>(ch[i].cache) { lf_scan(ch, i + 1, left - gl::<B>(ch[i].cache), left) }
    else { (i, left, true) }
}
impl LengthFinder {
//@ code src/generic_impl/len_finder.rs "LengthFinder::new" tags=
    fn new() -> «(r:» Self«)
        ensures r == (LengthFinder { left: 0, slot: 0, parent: None })»
    {
        Self {
            left: 0,
            slot: 0,
            parent: None,
        }
    }
//@ end
}
impl<B: BTreeTrait + UseLengthFinder<B>> Query<B> for LengthFinder {
    type QueryArg = usize;
    spec fn q_init(t: usize) -> Self { LengthFinder { left: t, slot: 0, parent: None } }
    spec fn q_ok(self, t: usize, ch: Seq<Child<B>>) -> bool { forall|i: int| 0 <= i < ch.len() ==> gl::<B>((#[trigger] ch[i]).cache) >= 0 }
    spec fn q_node(self, t: usize, ch: Seq<Child<B>>) -> (Self, FindResult) {
        let (i, left, found) = lf_scan(ch, 0, self.left as int, self.left as int);
        let internal = ch[0].arena is Internal;
        (LengthFinder {
            left: left as usize,
            slot: if internal { self.slot } else { i as u8 },
            parent: if internal { Some(ch[i].arena.ix()) } else { self.parent },
        }, FindResult { index: i as usize, offset: left as usize, found })
    }
    spec fn q_elem(self, t: usize, e: B::Elem) -> (Self, usize, bool) { (self, self.left, self.left < e.content().len()) }
//@ code src/generic_impl/len_finder.rs "Query for LengthFinder::init" tags=C06
    fn init(target: &Self::QueryArg) -> Self {
        Self {
            left: *target,
            slot: 0,
            parent: None,
        }
    }
//@ end
//@ code src/generic_impl/len_finder.rs "Query for LengthFinder::find_node" tags=C06,C16
    fn find_node(
        &mut self,
        _t: &Self::QueryArg,
        child_caches: &[Child<B>],
    ) -> FindResult {
        let mut last_left = self.left;
        let is_internal = child_caches.first().unwrap().is_internal();
        for i in 0..child_caches.len()
            «invariant
                0 < child_caches@.len() <= MAX_CHILDREN_NUM,
                forall|i: int| 0 <= i < child_caches@.len() ==> gl::<B>((#[trigger] child_caches@[i]).cache) >= 0,
                is_internal == (child_caches@[0].arena is Internal),
                self.slot == old(self).slot, self.parent == old(self).parent,
                lf_scan(child_caches@, i as int, self.left as int, last_left as int) == lf_scan(child_caches@, 0, old(self).left as int, old(self).left as int),
                0 <= last_left <= old(self).left, 0 <= self.left <= old(self).left,»
        {
            let cache = &child_caches[i];
            let len = B::get_len(&cache.cache);
            if self.left >= len {
                last_left = self.left;
                self.left -= len;
            } else {
                if is_internal {
                    self.parent = Some(cache.arena.unwrap());
                } else {
                    self.slot = i as u8;
                }
                return FindResult::new_found(i, self.left);
            }
        }

        self.left = last_left;
        if is_internal {
            self.parent = Some(child_caches.last().unwrap().arena.unwrap());
        } else {
            self.slot = child_caches.len() as u8 - 1;
        }
        FindResult::new_missing(child_caches.len() - 1, last_left)
    }
//@ end
//@ code src/generic_impl/len_finder.rs "Query for LengthFinder::confirm_elem" tags=C06
    fn confirm_elem(
        &mut self,
        _t: &Self::QueryArg,
        elem: &<B as BTreeTrait>::Elem,
    ) -> (usize, bool) {
        (self.left, self.left < elem.rle_len())
    }
//@ end
}

// the units of the leaves before the i-th, the first leaf below the i-th node of height h
impl<B: BTreeTrait> TS<B> {
    spec fn plen(self, g: G, i: int) -> int
        decreases i
    { if i <= 0 { 0 } else { self.plen(g, i - 1) + self.elen(g, i - 1) } }
    spec fn start(self, g: G, h: int, i: int) -> int
        decreases h
    { if h <= 0 { i } else if 0 <= i < g.lv[h].len() { self.start(g, h - 1, (g.fst)(g.lv[h][i])) } else { g.lv[0].len() as int } }
    proof fn lm_plen(self, g: G, i: int, j: int)
        requires i <= j
        ensures self.plen(g, i) <= self.plen(g, j), 0 <= self.plen(g, i)
        decreases j - i, i
    { if i < j { self.lm_plen(g, i, j - 1); } else if 0 < i { self.lm_plen(g, i - 1, j - 1); } }
    // the subtree of node i of height h ends where that of its last child ends
    proof fn lm_end(self, g: G, h: int, i: int)
        requires self.shape(g), 1 <= h < g.lv.len(), 0 <= i < g.lv[h].len()
        ensures self.start(g, h, i + 1) == self.start(g, h - 1, (g.fst)(g.lv[h][i]) + self.n(g.lv[h][i])),
            self.start(g, h, i) == self.start(g, h - 1, (g.fst)(g.lv[h][i])),
    {
        let m = g.lv[h][i];
        self.lm_at(g, h, i);
        self.lm_node(g, m);
    }
    proof fn lm_start(self, g: G, h: int, i: int, j: int)
        requires self.shape(g), 0 <= h < g.lv.len(), 0 <= i <= j <= g.lv[h].len()
        ensures 0 <= self.start(g, h, i) <= self.start(g, h, j) <= g.lv[0].len()
        decreases h, j - i
    {
        if h > 0 {
            if i < j {
                let m = g.lv[h][i];
                self.lm_at(g, h, i);
                self.lm_node(g, m);
                self.lm_end(g, h, i);
                self.lm_start(g, h - 1, (g.fst)(m), (g.fst)(m) + self.n(m));
                self.lm_start(g, h, i + 1, j);
            } else if i < g.lv[h].len() {
                let m = g.lv[h][i];
                self.lm_at(g, h, i);
                self.lm_node(g, m);
                self.lm_start(g, h - 1, (g.fst)(m), (g.fst)(m));
            }
        }
    }
    proof fn lm_cache(self, m: RawArenaIndex, k: int)
        requires self.caches_ok(), self.nodes.contains_key(m), 0 <= k < self.n(m)
        ensures self.nodes[m].ch[k].cache == self.kc(self.nodes[m].ch[k].arena)
    { reveal(TS::caches_ok); assert(self.cache_ok(m)); }
}
spec fn gls<B: BTreeTrait + UseLengthFinder<B>>(c: Seq<B::Cache>) -> Seq<int> { c.map_values(|x: B::Cache| gl::<B>(x)) }
// the length summary of a subtree is the number of units in its leaves
proof fn lm_span<B: BTreeTrait + UseLengthFinder<B>>(t: TS<B>, g: G, h: int, i: int)
    requires t.shape(g), t.elems_ok(), t.caches_ok(), t.plen(g, g.lv[0].len() as int) <= TOTAL, 0 <= h < g.lv.len(), 0 <= i < g.lv[h].len(),
        h > 0 ==> t.n(g.lv[h][i]) > 0,
    ensures gl::<B>(t.kc(aix(g, h, i))) == t.plen(g, t.start(g, h, i + 1)) - t.plen(g, t.start(g, h, i)),
    decreases h, 2int, 0int
{
    t.lm_at(g, h, i);
    if h == 0 {
        let l = g.lv[0][i];
        t.lm_elems_ok(l);
        t.lm_plen(g, i + 1, g.lv[0].len() as int);
        t.lm_plen(g, i, i);
        <B as UseLengthFinder<B>>::law_len_elem(t.leaves[l].elem);
    } else {
        let m = g.lv[h][i];
        t.lm_node(g, m);
        t.lm_end(g, h, i);
        let f = (g.fst)(m);
        lm_spans(t, g, h, i, t.n(m));
        let c = t.kids(m);
        t.lm_start(g, h - 1, f, f + t.n(m));
        t.lm_start(g, h - 1, f + t.n(m), g.lv[h - 1].len() as int);
        t.lm_plen(g, t.start(g, h - 1, f + t.n(m)), g.lv[0].len() as int);
        t.lm_plen(g, t.start(g, h - 1, f), t.start(g, h - 1, f));
        assert forall|k: int| 0 <= k < c.len() implies #[trigger] <B as UseLengthFinder<B>>::gl(c[k]) >= 0 by {
            lm_span_kid(t, g, h, i, k);
        }
        assert(gls::<B>(c).take(c.len() as int) =~= gls::<B>(c));
        assert(gls::<B>(c) =~= c.map_values(|x: B::Cache| <B as UseLengthFinder<B>>::gl(x)));
        <B as UseLengthFinder<B>>::law_len_sum(c);
    }
}
proof fn lm_span_kid<B: BTreeTrait + UseLengthFinder<B>>(t: TS<B>, g: G, h: int, i: int, k: int)
    requires t.shape(g), t.elems_ok(), t.caches_ok(), t.plen(g, g.lv[0].len() as int) <= TOTAL, 1 <= h < g.lv.len(), 0 <= i < g.lv[h].len(),
        0 <= k < t.n(g.lv[h][i]),
    ensures ({
        let m = g.lv[h][i];
        let f = (g.fst)(m);
        &&& gl::<B>(t.nodes[m].ch[k].cache) == t.plen(g, t.start(g, h - 1, f + k + 1)) - t.plen(g, t.start(g, h - 1, f + k))
        &&& gl::<B>(t.nodes[m].ch[k].cache) >= 0
        &&& t.kids(m)[k] == t.nodes[m].ch[k].cache
    })
    decreases h, 0int, 0int
{
    let m = g.lv[h][i];
    let f = (g.fst)(m);
    t.lm_at(g, h, i);
    t.lm_node(g, m);
    t.lm_child(g, m, k);
    if h > 1 { t.lm_at(g, h - 1, f + k); t.lm_node(g, g.lv[h - 1][f + k]); t.lm_root(g); }
    t.lm_cache(m, k);
    lm_span(t, g, h - 1, f + k);
    t.lm_start(g, h - 1, f + k, f + k + 1);
    t.lm_plen(g, t.start(g, h - 1, f + k), t.start(g, h - 1, f + k + 1));
}
proof fn lm_spans<B: BTreeTrait + UseLengthFinder<B>>(t: TS<B>, g: G, h: int, i: int, k: int)
    requires t.shape(g), t.elems_ok(), t.caches_ok(), t.plen(g, g.lv[0].len() as int) <= TOTAL, 1 <= h < g.lv.len(), 0 <= i < g.lv[h].len(),
        0 <= k <= t.n(g.lv[h][i]),
    ensures ({
        let m = g.lv[h][i];
        let f = (g.fst)(m);
        isum(gls::<B>(t.kids(m)).take(k)) == t.plen(g, t.start(g, h - 1, f + k)) - t.plen(g, t.start(g, h - 1, f))
    })
    decreases h, 1int, k
{
    let m = g.lv[h][i];
    let s = gls::<B>(t.kids(m));
    if k > 0 {
        lm_spans(t, g, h, i, k - 1);
        lm_span_kid(t, g, h, i, k - 1);
        assert(s.take(k).drop_last() =~= s.take(k - 1));
        assert(s.take(k).last() == s[k - 1]);
    }
}
// where the scan of the children stops
proof fn lm_scan<B: BTreeTrait + UseLengthFinder<B>>(t: TS<B>, g: G, h: int, i: int, k: int, target: int, last: int)
    requires t.shape(g), t.elems_ok(), t.caches_ok(), t.plen(g, g.lv[0].len() as int) <= TOTAL, 1 <= h < g.lv.len(), 0 <= i < g.lv[h].len(),
        t.n(g.lv[h][i]) > 0, 0 <= k <= t.n(g.lv[h][i]), t.plen(g, t.start(g, h - 1, (g.fst)(g.lv[h][i]) + k)) <= target,
        last == target - t.plen(g, t.start(g, h - 1, (g.fst)(g.lv[h][i]) + (if k > 0 { k - 1 } else { 0 }))),
    ensures ({
        let m = g.lv[h][i];
        let f = (g.fst)(m);
        let (j, left, found) = lf_scan(t.nodes[m].ch, k, target - t.plen(g, t.start(g, h - 1, f + k)), last);
        &&& 0 <= j < t.n(m) && left == target - t.plen(g, t.start(g, h - 1, f + j)) && left >= 0
        &&& found == (target < t.plen(g, t.start(g, h - 1, f + j + 1)))
        &&& found == (target < t.plen(g, t.start(g, h - 1, f + t.n(m))))
        &&& !found ==> j == t.n(m) - 1
    })
    decreases t.n(g.lv[h][i]) - k
{
    let m = g.lv[h][i];
    let f = (g.fst)(m);
    t.lm_at(g, h, i);
    t.lm_node(g, m);
    if k < t.n(m) {
        lm_span_kid(t, g, h, i, k);
        if target - t.plen(g, t.start(g, h - 1, f + k)) >= gl::<B>(t.nodes[m].ch[k].cache) {
            lm_scan(t, g, h, i, k + 1, target, target - t.plen(g, t.start(g, h - 1, f + k)));
        } else {
            t.lm_start(g, h - 1, f + k + 1, f + t.n(m));
            t.lm_plen(g, t.start(g, h - 1, f + k + 1), t.start(g, h - 1, f + t.n(m)));
        }
    } else {
        lm_span_kid(t, g, h, i, k - 1);
    }
}
// C06: a position query returns the leaf and the offset in it that the number of units before them determines
spec fn lf_at<B: BTreeTrait>(t: TS<B>, g: G, target: int, r: QueryResult) -> bool {
    let l = r.cursor.leaf.0;
    let i = (g.lpos)(l);
    &&& t.leaves.contains_key(l) && 0 <= i < g.lv[0].len() && g.lv[0][i] == l
    &&& t.plen(g, i) + r.cursor.offset == target
    &&& r.found == (target < t.plen(g, g.lv[0].len() as int))
    &&& r.found ==> r.cursor.offset < t.elen(g, i)
    &&& !r.found ==> i == g.lv[0].len() - 1
}
proof fn lm_lf<B: BTreeTrait + UseLengthFinder<B>>(t: TS<B>, g: G, h: int, i: int, q: LengthFinder, target: usize, found: bool)
    requires t.shape(g), t.elems_ok(), t.caches_ok(), t.plen(g, g.lv[0].len() as int) <= TOTAL, 1 <= h < g.lv.len(), 0 <= i < g.lv[h].len(),
        t.n(g.lv[h][i]) > 0, q.left == target - t.plen(g, t.start(g, h, i)),
        target < t.plen(g, t.start(g, h, i + 1)) || i == g.lv[h].len() - 1,
        found == (h == g.lv.len() - 1 || target < t.plen(g, t.start(g, h, i + 1))),
    ensures
        t.descent_ok(g, q, target, g.lv[h][i]),
        lf_at(t, g, target as int, t.descend(g, q, target, g.lv[h][i], found).0),
    decreases h
{
    let m = g.lv[h][i];
    let f = (g.fst)(m);
    t.lm_at(g, h, i);
    t.lm_node(g, m);
    t.lm_end(g, h, i);
    t.lm_root(g);
    lm_scan(t, g, h, i, 0, target as int, q.left as int);
    let (q1, fr) = <LengthFinder as Query<B>>::q_node(q, target, t.nodes[m].ch);
    let (j, left, hit) = lf_scan(t.nodes[m].ch, 0, q.left as int, q.left as int);
    t.lm_start(g, h - 1, f, f + j);
    t.lm_plen(g, t.start(g, h - 1, f), t.start(g, h - 1, f + j));
    assert(q1.left == left && fr.index == j && fr.found == hit);
    assert forall|k: int| 0 <= k < t.n(m) implies gl::<B>((#[trigger] t.nodes[m].ch[k]).cache) >= 0 by { lm_span_kid(t, g, h, i, k); }
    t.lm_child(g, m, j);
    t.lm_start(g, h, i + 1, g.lv[h].len() as int);
    t.lm_plen(g, t.start(g, h, i + 1), g.lv[0].len() as int);
    if h == 1 {
        t.lm_leaf(g, g.lv[0][f + j]);
    } else {
        t.lm_at(g, h - 1, f + j);
        t.lm_node(g, g.lv[h - 1][f + j]);
        lm_lf(t, g, h - 1, f + j, q1, target, found && fr.found);
    }
}
impl<B: BTreeTrait> BTree<B> {
    proof fn lm_query(&self, target: usize)
        where B: UseLengthFinder<B>
        requires self.ts().shape(self.g@), self.ts().elems_ok(), self.ts().caches_ok(), self.order().len() > 0,
            self.ts().plen(self.g@, self.order().len() as int) <= TOTAL
        ensures
            /*C06*/ self.ts().descent_ok(self.g@, <LengthFinder as Query<B>>::q_init(target), target, self.ts().rt()),
            lf_at(self.ts(), self.g@, target as int, self.ts().descend(self.g@, <LengthFinder as Query<B>>::q_init(target), target, self.ts().rt(), true).0)
    {
        let t = self.ts();
        let g = self.g@;
        t.lm_root(g);
        self.lm_empty();
        t.lm_end(g, g.lv.len() - 1, 0);
        lm_start0(t, g, g.lv.len() - 1);
        lm_lf(t, g, g.lv.len() - 1, 0, <LengthFinder as Query<B>>::q_init(target), target, true);
    }
}
proof fn lm_start0<B: BTreeTrait>(t: TS<B>, g: G, h: int)
    requires t.shape(g), 0 <= h < g.lv.len(), g.lv[0].len() > 0
    ensures t.start(g, h, 0) == 0
    decreases h
{
    if h > 0 {
        lm_start0(t, g, h - 1);
        if g.lv[h].len() > 0 {
            t.lm_at(g, h, 0);
            t.lm_node(g, g.lv[h][0]);
        } else {
            t.lm_root(g);
            if h < g.lv.len() - 1 { lm_full(t, g, h); }
        }
    }
}
// no level of a non-empty tree is empty
proof fn lm_full<B: BTreeTrait>(t: TS<B>, g: G, h: int)
    requires t.shape(g), 0 <= h < g.lv.len(), g.lv[0].len() > 0
    ensures g.lv[h].len() > 0
    decreases h
{
    if h > 0 {
        lm_full(t, g, h - 1);
        let a = aix(g, h - 1, 0);
        t.lm_at(g, h - 1, 0);
        t.lm_root(g);
        t.lm_par(g, a);
        t.lm_node(g, t.par(a));
    }
}
