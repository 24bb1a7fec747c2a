// Inserting leaves and contents. (C03, C04, C05, C07, C16)
//@ rw let mut splitted: SplittedLeaves = Default::default(); ==> let mut splitted: SplittedLeaves = SplittedLeaves::vx_default();
//@ rw (self.push(data), Default::default()) ==> (self.push(data), SplittedLeaves::vx_default())
//@ code src/lib.rs "struct SplittedLeaves" tags=
struct SplittedLeaves {
    arr: HeaplessVec<LeafIndex, 2>,
}
//@ end
//@ code src/lib.rs "struct SplitInfo" tags=
struct SplitInfo {
    new_pos: Option<Cursor>,
    left_neighbour: Option<LeafIndex>,
    parent_idx: RawArenaIndex,
    insert_slot: usize,
    new_leaf: Option<ArenaIndex>,
}
//@ end
#[verifier::external] impl core::fmt::Debug for LeafIndex { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl SplittedLeaves {
    // the derived Default
    #[verifier::external_body]
    fn vx_default() -> (r: Self)
        ensures r.arr@ == Seq::<LeafIndex>::empty()
    { unimplemented!() }
//@ code src/lib.rs "SplittedLeaves::push_option" tags=C16
    fn push_option(&mut self, leaf: Option<ArenaIndex>)«
        requires leaf is Some ==> old(self).arr@.len() < 2
        ensures final(self).arr@ == (if leaf is Some { old(self).arr@.push(LeafIndex(leaf->0.ix())) } else { old(self).arr@ })»
    {
        if let Some(leaf) = leaf {
            self.arr.push(leaf.unwrap().into()).unwrap();
        }
    }
//@ end
//@ code src/lib.rs "SplittedLeaves::push" tags=C16
    fn push(&mut self, leaf: ArenaIndex)«
        requires old(self).arr@.len() < 2
        ensures final(self).arr@ == old(self).arr@.push(LeafIndex(leaf.ix()))»
    {
        self.arr.push(leaf.unwrap().into()).unwrap();
    }
//@ end
}
impl<T: Sliceable> LeafNode<T> {
//@ code src/lib.rs "LeafNode::split" tags=C03,C16
    fn split(&mut self, offset: usize) -> «(r:» Self«)
        requires old(self).elem.ok(), 0 < offset < old(self).elem.content().len()
        ensures final(self).elem.ok(), r.elem.ok(), final(self).parent == old(self).parent, r.parent == old(self).parent,
            final(self).elem.content() == old(self).elem.content().subrange(0, offset as int),
            r.elem.content() == old(self).elem.content().subrange(offset as int, old(self).elem.content().len() as int)»
    {
        let new_elem = self.elem.split(offset);
        Self {
            elem: new_elem,
            parent: self.parent,
        }
    }
//@ end
}
impl<B: BTreeTrait> TS<B> {
    spec fn set_elem(self, l: RawArenaIndex, e: B::Elem) -> TS<B> {
        TS { leaves: self.leaves.insert(l, LeafNode { elem: e, parent: self.leaves[l].parent }), ..self }
    }
    // another element in a leaf
    proof fn lm_set_elem(self, g: G, l: RawArenaIndex, e: B::Elem)
        requires self.lnk(g), self.leaves.contains_key(l), e.ok()
        ensures ({
            let t = self.set_elem(l, e);
            &&& t.lnk(g) && (self.sized(g) ==> t.sized(g)) && (self.not_full() ==> t.not_full()) && (self.elems_ok() ==> t.elems_ok())
            &&& self.caches_ok() ==> t.cx(ArenaIndex::Leaf(l))
            &&& t.same_but(self, l, l, l)
            &&& B::cok(B::ec(e)) && t.leaves.contains_key(l) && t.leaves[l].elem == e
        })
    {
        let t = self.set_elem(l, e);
        B::law_cok(e);
        reveal(TS::lnk); reveal(TS::sized); reveal(TS::not_full); reveal(TS::elems_ok); reveal(TS::cx); reveal(TS::caches_ok); reveal(TS::same_but);
        assert forall|m: RawArenaIndex| #[trigger] t.node_ok(g, m) by { assert(self.node_ok(g, m)); }
        assert forall|m: RawArenaIndex| #[trigger] t.leaf_ok(g, m) by { assert(self.leaf_ok(g, m)); }
        assert forall|h: int, i: int| #[trigger] t.lvl_ok(g, h, i) by { assert(self.lvl_ok(g, h, i)); }
        assert forall|i: int| #[trigger] t.lfl_ok(g, i) by { assert(self.lfl_ok(g, i)); }
        if self.sized(g) { assert forall|m: RawArenaIndex| #[trigger] t.size_ok(g, m) by { assert(self.size_ok(g, m)); } }
        if self.not_full() { assert forall|m: RawArenaIndex| #[trigger] t.roomy(m) by { assert(self.roomy(m)); } }
        if self.elems_ok() { assert forall|m: RawArenaIndex| #[trigger] t.elem_ok(m) by { assert(self.elem_ok(m)); } }
        if self.caches_ok() {
            assert forall|m: RawArenaIndex| #[trigger] t.cx1(ArenaIndex::Leaf(l), m) by { assert(self.cache_ok(m)); }
        }
        assert forall|m: RawArenaIndex| m != l implies #[trigger] t.same_leaf(self, m) by {}
    }
    // a new leaf x in slot k of p
    spec fn put(self, p: RawArenaIndex, k: int, x: RawArenaIndex, e: B::Elem, c: B::Cache) -> TS<B> {
        TS {
            nodes: self.nodes.insert(p, NodeS { ch: self.nodes[p].ch.insert(k, Child { arena: ArenaIndex::Leaf(x), cache: c }), ..self.nodes[p] }),
            leaves: self.leaves.insert(x, LeafNode { elem: e, parent: p }),
            ..self
        }
    }
    proof fn lm_put(self, g: G, p: RawArenaIndex, k: int, x: RawArenaIndex, e: B::Elem, c: B::Cache)
        requires self.lnk(g), self.nodes.contains_key(p), (g.ht)(p) == 1, 0 <= k <= self.n(p) < MAX_CHILDREN_NUM, !self.leaves.contains_key(x), e.ok()
        ensures ({
            let t = self.put(p, k, x, e, c);
            let g1 = g_ins(g, 0, (g.fst)(p) + k, p, x, 0);
            &&& t.lnk(g1) && (self.sized(g) ==> t.sized(g1)) && (self.not_full() ==> t.roomy_but(p)) && (self.elems_ok() ==> t.elems_ok())
            &&& t.n(p) == self.n(p) + 1 && t.root == self.root && t.kids(p) == self.kids(p).insert(k, c) && t.same_but(self, x, x, x)
            &&& g1.lv[0] == g.lv[0].insert((g.fst)(p) + k, x) && g1.lv.len() == g.lv.len() && g1.ht == g.ht && (g1.fst)(p) == (g.fst)(p)
            &&& 0 <= (g.fst)(p) && (g.fst)(p) + k <= g.lv[0].len()
        })
    {
        let t1 = self.put(p, k, x, e, c);
        let i = (g.fst)(p) + k;
        let g1 = g_ins(g, 0, i, p, x, 0);
        self.lm_root(g);
        self.lm_node(g, p);
        reveal(TS::lnk);
        assert forall|hh: int, ii: int| #[trigger] t1.lvl_ok(g1, hh, ii) by { assert(self.lvl_ok(g, hh, ii)); }
        assert forall|ii: int| #[trigger] t1.lfl_ok(g1, ii) by {
            assert(self.lfl_ok(g, ii)); assert(self.lfl_ok(g, ii - 1));
        }
        assert forall|y: RawArenaIndex| #[trigger] t1.node_ok(g1, y) by {
            assert(self.node_ok(g, y));
            if t1.nodes.contains_key(y) {
                assert(self.nodes.contains_key(y));
                if (g.ht)(y) == 1 && (g.pos)(y) < (g.pos)(p) { self.lm_order(g, y, p); }
                if (g.ht)(y) == 1 && (g.pos)(y) > (g.pos)(p) { self.lm_order(g, p, y); }
                if (g.ht)(y) == 1 && (g.pos)(y) == (g.pos)(p) { self.lm_order(g, p, y); }
                assert(t1.place_ok(g1, y));
                assert(t1.cover_ok(g1, y)) by {
                    if (g.pos)(y) + 1 < g.lv[(g.ht)(y)].len() {
                        self.lm_at(g, (g.ht)(y), (g.pos)(y) + 1);
                    }
                }
                assert(t1.kids_ok(g1, y)) by {
                    assert forall|j: int| 0 <= j < t1.n(y) implies (#[trigger] t1.nodes[y].ch[j]).arena == aix(g1, (g1.ht)(y) - 1, (g1.fst)(y) + j) by {
                        if y == p {
                            if j < k { assert(self.nodes[p].ch[j].arena == aix(g, 0, (g.fst)(p) + j)); }
                            else if j > k { assert(self.nodes[p].ch[j - 1].arena == aix(g, 0, (g.fst)(p) + j - 1)); }
                        } else { assert(self.nodes[y].ch[j].arena == aix(g, (g.ht)(y) - 1, (g.fst)(y) + j)); }
                    }
                }
                assert(t1.link_ok(g1, y)) by {
                    if y != self.rt() {
                        let q = self.par(ArenaIndex::Internal(y));
                        self.lm_node(g, q);
                    }
                }
            }
        }
        assert forall|l: RawArenaIndex| #[trigger] t1.leaf_ok(g1, l) by {
            assert(self.leaf_ok(g, l));
            if t1.leaves.contains_key(l) && l != x {
                let q = self.leaves[l].parent;
                self.lm_node(g, q);
                if (g.pos)(q) < (g.pos)(p) { self.lm_order(g, q, p); }
                if (g.pos)(q) > (g.pos)(p) { self.lm_order(g, p, q); }
                if (g.pos)(q) == (g.pos)(p) { self.lm_order(g, p, q); }
            }
        }
        if self.sized(g) {
            reveal(TS::sized);
            assert forall|y: RawArenaIndex| #[trigger] t1.size_ok(g1, y) by { assert(self.size_ok(g, y)); }
        }
        if self.not_full() {
            reveal(TS::roomy_but); reveal(TS::not_full);
            assert forall|y: RawArenaIndex| y != p implies #[trigger] t1.roomy(y) by { assert(self.roomy(y)); }
        }
        if self.elems_ok() {
            reveal(TS::elems_ok);
            assert forall|l: RawArenaIndex| #[trigger] t1.elem_ok(l) by { assert(self.elem_ok(l)); }
        }
        assert(t1.kids(p) =~= self.kids(p).insert(k, c));
        reveal(TS::same_but);
        assert forall|m: RawArenaIndex| m != x implies #[trigger] t1.same_leaf(self, m) by {}
    }
    proof fn lm_put_fat(self, g: G, p: RawArenaIndex, k: int, x: RawArenaIndex, e: B::Elem, c: B::Cache)
        requires self.fat(g), self.nodes.contains_key(p), 0 <= k <= self.n(p)
        ensures self.put(p, k, x, e, c).fat(g_ins(g, 0, (g.fst)(p) + k, p, x, 0))
    {
        let t = self.put(p, k, x, e, c);
        let g1 = g_ins(g, 0, (g.fst)(p) + k, p, x, 0);
        reveal(TS::fat);
        assert forall|y: RawArenaIndex| #[trigger] t.fat_ok(g1, y) by { assert(self.fat_ok(g, y)); if y != p { assert(t.nodes[y] == self.nodes[y]); } }
    }
    proof fn lm_nodes_fat(self, o: TS<B>, g: G)
        requires self.nodes == o.nodes, self.root == o.root, self.fat(g)
        ensures o.fat(g)
    { reveal(TS::fat); assert forall|y: RawArenaIndex| #[trigger] o.fat_ok(g, y) by { assert(self.fat_ok(g, y)); } }
    // its entry is right; the entry of p may not be any more
    proof fn lm_put_cx(self, g: G, p: RawArenaIndex, k: int, x: RawArenaIndex, e: B::Elem)
        requires self.lnk(g), self.nodes.contains_key(p), (g.ht)(p) == 1, 0 <= k <= self.n(p), !self.leaves.contains_key(x), e.ok(), self.cx(ArenaIndex::Internal(p))
        ensures ({
            let t = self.put(p, k, x, e, B::ec(e));
            &&& t.cx(ArenaIndex::Internal(p))
            &&& forall|a: ArenaIndex| self.has(a) && a != ArenaIndex::Internal(p) ==> #[trigger] t.kc(a) == self.kc(a)
        })
    {
        let t = self.put(p, k, x, e, B::ec(e));
        let a = ArenaIndex::Internal(p);
        B::law_cok(e);
        reveal(TS::cx);
        assert forall|a: ArenaIndex| self.has(a) && a != ArenaIndex::Internal(p) implies #[trigger] t.kc(a) == self.kc(a) by {
            match a { ArenaIndex::Leaf(l) => {}, ArenaIndex::Internal(n) => { assert(t.nodes[n] == self.nodes[n]); } }
        }
        assert forall|m: RawArenaIndex| #[trigger] t.cx1(a, m) by {
            assert(self.cx1(a, m));
            if t.nodes.contains_key(m) {
                assert forall|j: int| 0 <= j < t.n(m) implies {
                    let c = #[trigger] t.nodes[m].ch[j];
                    B::cok(c.cache) && (c.arena != a ==> c.cache == t.kc(c.arena))
                } by {
                    if m != p { assert(t.nodes[m].ch[j] == self.nodes[m].ch[j]); self.lm_child(g, m, j); }
                    else if j < k { assert(t.nodes[m].ch[j] == self.nodes[m].ch[j]); self.lm_child(g, m, j); }
                    else if j > k { assert(t.nodes[m].ch[j] == self.nodes[m].ch[j - 1]); self.lm_child(g, m, j - 1); }
                }
            }
        }
    }
    // all entries right
    proof fn lm_cx_of(self, a: ArenaIndex)
        requires self.caches_ok()
        ensures self.cx(a)
    {
        reveal(TS::caches_ok); reveal(TS::cx);
        assert forall|m: RawArenaIndex| #[trigger] self.cx1(a, m) by { assert(self.cache_ok(m)); }
    }
    proof fn lm_ch_cache(self, m: RawArenaIndex)
        requires self.caches_ok()
        ensures self.cache_ok(m)
    { reveal(TS::caches_ok); assert(self.cache_ok(m)); }
    proof fn lm_roomy(self, m: RawArenaIndex)
        requires self.not_full()
        ensures self.roomy(m)
    { reveal(TS::not_full); assert(self.roomy(m)); }
    proof fn lm_roomy_all(self, m: RawArenaIndex)
        requires self.roomy_but(m), self.roomy(m)
        ensures self.not_full()
    { reveal(TS::not_full); reveal(TS::roomy_but); assert forall|y: RawArenaIndex| #[trigger] self.roomy(y) by { if y != m { assert(self.roomy(y)); } } }
    proof fn lm_sim_roomy(self, o: TS<B>, m: RawArenaIndex)
        requires self.sim(o), self.roomy_but(m)
        ensures o.roomy_but(m)
    {
        reveal(TS::sim); reveal(TS::roomy_but);
        assert forall|y: RawArenaIndex| y != m implies #[trigger] o.roomy(y) by { assert(self.roomy(y)); assert(self.sim1(o, y)); }
    }
}
// the entries of t are right but for that of p, whose summary did not change: they are all right
proof fn lm_recached<B: BTreeTrait>(o: TS<B>, t: TS<B>, g: G, p: RawArenaIndex)
    requires o.caches_ok(), t.cx(ArenaIndex::Internal(p)), t.kids(p).len() > 0, B::sum(t.kids(p)) == B::sum(o.kids(p)), t.lnk(g), t.nodes.contains_key(p),
        t.nodes.dom() == o.nodes.dom(), forall|m: RawArenaIndex| m != p ==> #[trigger] t.nodes[m] == o.nodes[m]
    ensures t.caches_ok()
{
    let a = ArenaIndex::Internal(p);
    reveal(TS::caches_ok); reveal(TS::cx);
    assert forall|m: RawArenaIndex| #[trigger] t.cache_ok(m) by {
        assert(t.cx1(a, m)); assert(o.cache_ok(m));
        if t.nodes.contains_key(m) {
            assert forall|j: int| 0 <= j < t.n(m) implies {
                let c = #[trigger] t.nodes[m].ch[j];
                B::cok(c.cache) && c.cache == t.kc(c.arena)
            } by {
                let c = t.nodes[m].ch[j];
                if c.arena == a {
                    assert(t.kc(a) == o.kc(a));
                    if m != p { assert(o.nodes[m].ch[j].cache == o.kc(a)); }
                    else { t.lm_child(g, p, j); }
                }
            }
        }
    }
}
impl<B: BTreeTrait> BTree<B> {
    // how split_leaf_if_needed leaves the leaves: nothing happened, or the leaf was cut at the cursor
    spec fn cut_leaf(&self, o: &Self, pos: Cursor, new_leaf: Option<ArenaIndex>) -> bool {
        let l = pos.leaf.0;
        let e = o.el(l);
        match new_leaf {
            None => (pos.offset == 0 || pos.offset == e.len()) && self.ts() == o.ts() && self.g == o.g && self.root_cache == o.root_cache,
            Some(a) => {
                let x = a.ix();
                &&& 0 < pos.offset < e.len() && a is Leaf && !o.leaf_nodes.used().contains(x) && x != l
                &&& self.ts().leaves.contains_key(l) && self.ts().leaves.contains_key(x) && self.ts().same_but(o.ts(), l, x, x)
                &&& self.order() == o.order().insert(o.at(pos.leaf) + 1, x)
                &&& self.el(l) == e.subrange(0, pos.offset as int) && self.el(x) == e.subrange(pos.offset as int, e.len() as int)
            },
        }
    }
//@ code src/lib.rs "BTree::alloc_leaf_child" tags=C05,C16
    fn alloc_leaf_child(
        &mut self,
        data: <B as BTreeTrait>::Elem,
        parent_index: RawArenaIndex,
    ) -> «(r:» Child<B>«)
        requires data.ok()
        ensures r.arena is Leaf, r.cache == B::ec(data), !old(self).leaf_nodes@.contains_key(r.arena.ix()), !old(self).leaf_nodes.used().contains(r.arena.ix()),
            final(self).leaf_nodes@ == old(self).leaf_nodes@.insert(r.arena.ix(), LeafNode { elem: data, parent: parent_index }),
            final(self).leaf_nodes.used() == old(self).leaf_nodes.used().insert(r.arena.ix()),
            final(self).in_nodes == old(self).in_nodes, final(self).root == old(self).root, final(self).root_cache == old(self).root_cache, final(self).g == old(self).g»
    {
        let elem_cache = B::get_elem_cache(&data);
        let new_leaf_index = self.alloc_new_leaf(LeafNode {
            elem: data,
            parent: parent_index,
        });
        Child {
            arena: new_leaf_index,
            cache: elem_cache,
        }
    }
//@ end
//@ code src/lib.rs "BTree::alloc_new_leaf" tags=C16
    fn alloc_new_leaf(&mut self, leaf: LeafNode<B::Elem>) -> «(r:» ArenaIndex«)
        ensures r is Leaf, !old(self).leaf_nodes@.contains_key(r.ix()), !old(self).leaf_nodes.used().contains(r.ix()),
            final(self).leaf_nodes@ == old(self).leaf_nodes@.insert(r.ix(), leaf), final(self).leaf_nodes.used() == old(self).leaf_nodes.used().insert(r.ix()),
            final(self).in_nodes == old(self).in_nodes, final(self).root == old(self).root, final(self).root_cache == old(self).root_cache, final(self).g == old(self).g»
    {
        let arena_index = self.leaf_nodes.insert(leaf);
        ArenaIndex::Leaf(arena_index)
    }
//@ end
//@ code src/lib.rs "BTree::split_leaf_if_needed" tags=C03,C04,C05,C07,C16
    fn split_leaf_if_needed(&mut self, pos: Cursor) -> «(r:» SplitInfo«)
        requires old(self).inv() && old(self).valid(pos) || old(self).vs().shape(old(self).g@) && old(self).vs().leaves.contains_key(pos.leaf.0) && old(self).leaf_nodes@[pos.leaf.0].elem.ok()
            && (pos.offset == 0 || pos.offset == old(self).el(pos.leaf.0).len())
        ensures
            final(self).g@.lv.len() <= old(self).g@.lv.len() + if old(self).vs().n(old(self).vs().leaves[pos.leaf.0].parent) + 1 >= MAX_CHILDREN_NUM { 1int } else { 0 },
            old(self).inv() ==> final(self).wf(), final(self).uses(old(self)), old(self).inv() ==> /*C03 C07*/ final(self).cut_leaf(old(self), pos, r.new_leaf),
            old(self).inv() ==> final(self).ts().cx(ArenaIndex::Internal(r.parent_idx)),
            old(self).inv() ==> r.new_leaf is None || B::USE_DIFF ==> /*C05*/ final(self).inv(),
            final(self).has(pos.leaf), final(self).at(pos.leaf) == old(self).at(pos.leaf), final(self).ts().leaves[pos.leaf.0].parent == r.parent_idx,
            final(self).ts().nodes.contains_key(r.parent_idx), (final(self).g@.ht)(r.parent_idx) == 1,
            r.insert_slot <= final(self).ts().n(r.parent_idx),
            /*C03*/ (final(self).g@.fst)(r.parent_idx) + r.insert_slot == old(self).at(pos.leaf) + (if pos.offset > 0 { 1int } else { 0 }),
            // between two leaves there is nothing to do
            pos.offset == 0 || pos.offset == old(self).el(pos.leaf.0).len() ==> r.new_leaf is None && final(self).in_nodes@ == old(self).in_nodes@
                && final(self).leaf_nodes@ == old(self).leaf_nodes@ && final(self).leaf_nodes.used() == old(self).leaf_nodes.used() && final(self).g == old(self).g && final(self).root_cache == old(self).root_cache && final(self).root == old(self).root,
            // the cursor behind the place
            r.new_pos == (if r.new_leaf is Some { Some(Cursor { leaf: LeafIndex((r.new_leaf->0).ix()), offset: 0 }) }
                else if pos.offset == 0 { Some(pos) }
                else if old(self).at(pos.leaf) + 1 < old(self).order().len() { Some(Cursor { leaf: LeafIndex(old(self).order()[old(self).at(pos.leaf) + 1]), offset: 0 }) }
                else { None }),
            r.left_neighbour is Some ==> old(self).at(pos.leaf) > 0 && (r.left_neighbour->0).0 == old(self).order()[old(self).at(pos.leaf) - 1],
            r.left_neighbour is None ==> final(self).ts().nodes[r.parent_idx].ch[0].arena == ArenaIndex::Leaf(pos.leaf.0)
        decreases old(self).ts().n(old(self).ts().leaves[pos.leaf.0].parent)»
    {
        «let ghost o = *self; let ghost inv = self.inv(); let ghost t0 = if inv { self.ts() } else { self.vs() }; let ghost g = self.g@; let ghost l = pos.leaf.0; let ghost p = t0.leaves[l].parent; let ghost i = (g.lpos)(l); let ghost k = i - (g.fst)(p);
        let ghost ch0 = t0.nodes[p].ch;
        proof {
            t0.lm_root(g); t0.lm_par(g, ArenaIndex::Leaf(l)); t0.lm_node(g, p); if inv { t0.lm_roomy(p); t0.lm_elems_ok(l); t0.lm_cx_of(ArenaIndex::Internal(p)); }
            assert(t0.nodes[p] == ns(self.in_nodes@[p]));
            assert forall|j: int| 0 <= j < ch0.len() implies (#[trigger] ch0[j]).arena is Leaf && ch0[j].arena.ix() == g.lv[0][(g.fst)(p) + j] && (ch0[j].arena.ix() == l ==> j == k)
                by { t0.lm_child(g, p, j); }
            assert(ch0[k].arena == ArenaIndex::Leaf(l));
        }»
        let leaf = self.leaf_nodes.get_mut(pos.leaf.0).unwrap();
        let parent_idx = leaf.parent;
        let parent = self.in_nodes.get_mut(leaf.parent).unwrap();
        let mut new_pos = Some(pos);
        let mut rt_new_leaf = None;
        let leaf_slot = vx_position(&parent.children, |x«: &Child<B>»| «-> (b: bool) ensures b == (x.arena.ix() == l) {» x.arena.unwrap() == pos.leaf.0 «}»);
        let left_neighbour = if leaf_slot == 0 {
            None
        } else {
            Some(parent.children[leaf_slot - 1].arena.unwrap().into())
        };
        let insert_pos = if pos.offset == 0 {
            «proof { assert(self.ts().nodes =~= t0.nodes); assert(self.leaf_nodes@ =~= o.leaf_nodes@); assert(self.in_nodes@ =~= o.in_nodes@); assert(self.vs() == o.vs()); }»
            leaf_slot
        } else if pos.offset == leaf.elem.rle_len() {
            if leaf_slot + 1 < parent.children.len() {
                new_pos = Some(Cursor {
                    leaf: parent.children[leaf_slot + 1].arena.unwrap().into(),
                    offset: 0,
                });
                «proof { assert(self.ts().nodes =~= t0.nodes); assert(self.leaf_nodes@ =~= o.leaf_nodes@); assert(self.in_nodes@ =~= o.in_nodes@); assert(self.vs() == o.vs()); }»
            } else {
                «proof { assert(self.ts().nodes =~= t0.nodes); assert(self.leaf_nodes@ =~= o.leaf_nodes@); assert(self.in_nodes@ =~= o.in_nodes@); assert(self.vs() == o.vs()); }»
                new_pos = self.next_elem(pos);
            }
            leaf_slot + 1
        } else {
            assert!(pos.offset < leaf.elem.rle_len());
            if parent.children.len() + 1 >= MAX_CHILDREN_NUM {
                «proof { assert(self.ts().nodes =~= t0.nodes); assert(self.leaf_nodes@ =~= o.leaf_nodes@); assert(self.in_nodes@ =~= o.in_nodes@); assert(self.vs() == o.vs());
                    reveal(TS::roomy_but); reveal(TS::not_full);
                    assert forall|y: RawArenaIndex| y != p implies #[trigger] t0.roomy(y) by { assert(t0.roomy(y)); }
                    assert(self.ts() == t0);
                }»
                self.split(ArenaIndex::Internal(parent_idx));
                «let ghost t1 = self.ts();
                proof {
                    t1.lm_same_elems(t0); t1.lm_same_leaf(t0, l);
                    reveal(TS::kept); assert(t1.kept_leaf(t0, p, t0.n(p) / 2, l));
                    reveal(TS::same_leaves);
                    reveal(TS::same_but);
                    assert forall|o: TS<B>, a: RawArenaIndex, b: RawArenaIndex| #[trigger] o.same_but(t1, a, b, b) implies o.same_but(t0, a, b, b) by {
                        assert forall|y: RawArenaIndex| y != a && y != b implies #[trigger] o.same_leaf(t0, y) by { assert(o.same_leaf(t1, y)); assert(t1.same_leaf(t0, y)); }
                    }
                }»
                return self.split_leaf_if_needed(pos);
            }
            let new_leaf = leaf.split(pos.offset);
            let left_cache = B::get_elem_cache(&leaf.elem);
            let cache = B::get_elem_cache(&new_leaf.elem);
            «let ghost el = leaf.elem; let ghost er = new_leaf.elem; let ghost e0 = t0.leaves[l].elem;
            let ghost ta = t0.set_elem(l, el); let ghost tb = ta.setc(p, k, B::ec(el));»
            let leaf_arena_index = {
                let arena_index = self.leaf_nodes.insert(new_leaf);
                ArenaIndex::Leaf(arena_index)
            };
            «let ghost x = leaf_arena_index.ix(); let ghost tc = tb.put(p, k + 1, x, er, B::ec(er)); let ghost g1 = g_ins(g, 0, i + 1, p, x, 0);»
            rt_new_leaf = Some(leaf_arena_index);
            new_pos = Some(Cursor {
                leaf: leaf_arena_index.unwrap().into(),
                offset: 0,
            });
            parent.children[leaf_slot].cache = left_cache;
            parent
                .children
                .insert(
                    leaf_slot + 1,
                    Child {
                        arena: leaf_arena_index,
                        cache,
                    },
                )
                .unwrap();
            «proof {
                self.g = Ghost(g1);
                assert(ns(self.in_nodes@[p]).ch =~= tc.nodes[p].ch);
                assert(self.ts().nodes =~= tc.nodes);
                assert(self.ts().leaves =~= tc.leaves);
                t0.lm_set_elem(g, l, el);
                ta.lm_up(g, ArenaIndex::Leaf(l));
                ta.lm_sim(tb, g);
                tb.lm_put(g, p, k + 1, x, er, B::ec(er));
                tb.lm_put_cx(g, p, k + 1, x, er);
                tc.lm_roomy_all(p);
                reveal(TS::same_but);
                assert forall|y: RawArenaIndex| y != l && y != x implies #[trigger] tc.same_leaf(t0, y) by { assert(tc.same_leaf(tb, y)); assert(ta.same_leaf(t0, y)); }
                if B::USE_DIFF {
                    let a = t0.kids(p).subrange(0, k);
                    let d = t0.kids(p).subrange(k + 1, t0.n(p));
                    t0.lm_ch_cache(p);
                    assert(t0.kids(p)[k] == B::ec(e0));
                    assert(t0.kids(p) =~= a + seq![B::ec(e0)] + d);
                    assert(tc.kids(p) =~= a + seq![B::ec(el), B::ec(er)] + d);
                    assert(e0.content() =~= el.content() + er.content());
                    B::law_cut(a, e0, el, er, d);
                    t0.lm_setc(p, k, B::ec(el));
                    assert(tc.nodes.dom() =~= t0.nodes.dom()); lm_recached(t0, tc, g1, p);
                }
            }»
            leaf_slot + 1
        };
        SplitInfo {
            left_neighbour,
            new_pos,
            parent_idx,
            insert_slot: insert_pos,
            new_leaf: rt_new_leaf,
        }
    }
//@ end
}
