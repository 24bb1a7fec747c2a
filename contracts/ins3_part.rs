// insert_by_path, insert, push, prepend. (C03, C04, C05, C07, C16)
impl<B: BTreeTrait> TS<B> {
    // What recursive_update_cache needs after leaf l got the element f, which is the old one with x put into it at k;
    // everything else is right.
    proof fn lm_grown(self, g: G, rc: B::Cache, l: RawArenaIndex, k: int, x: B::Elem, f: B::Elem)
        requires self.lnk(g), self.leaves.contains_key(l), self.caches_ok(), self.root_cache_ok(rc), self.leaves[l].elem.ok(), x.ok(), f.ok(),
            0 <= k <= self.leaves[l].elem.content().len(),
            f.content() == self.leaves[l].elem.content().subrange(0, k) + x.content() + self.leaves[l].elem.content().subrange(k, self.leaves[l].elem.content().len() as int),
        ensures ({
            let t1 = self.set_elem(l, f);
            let a = ArenaIndex::Leaf(l);
            let t = t1.fix(g, a);
            let u = t1.up(a);
            &&& t1.lnk(g) && t.cx(u) && t.n(u.ix()) > 0 && t1.has(a)
            &&& B::USE_DIFF && u != self.root ==> rc == t1.kc(self.root)
            &&& B::USE_DIFF ==> t.pend(g, rc, u, B::nd(B::ec(x)))
        })
    {
        let t1 = self.set_elem(l, f);
        let a = ArenaIndex::Leaf(l);
        let p = self.leaves[l].parent;
        let u = ArenaIndex::Internal(p);
        let j = (g.lpos)(l) - (g.fst)(p);
        let d = B::nd(B::ec(x));
        self.lm_root(g);
        self.lm_par(g, a);
        self.lm_node(g, p);
        self.lm_set_elem(g, l, f);
        t1.lm_up(g, a);
        let t = t1.setc(p, j, B::ec(f));
        assert(t == t1.fix(g, a));
        self.lm_ch_cache(p);
        assert(self.kids(p)[j] == B::ec(self.leaves[l].elem));
        if B::USE_DIFF {
            B::law_c0();
            B::law_splice(self.leaves[l].elem, k, x, f);
            B::law_app(self.kids(p), j, d);
            assert(t1.kids(p) == self.kids(p));
            assert(t.kids(p) =~= self.kids(p).update(j, B::app(self.kids(p)[j], d)));
            assert(t.nodes.dom() =~= self.nodes.dom());
            t1.lm_sim(t, g);
            lm_pend_at(self, t, g, rc, p, d);
            assert(t1.kc(self.root) == self.kc(self.root));
        }
    }
    // the same after a new leaf went under p
    proof fn lm_added(self, g: G, rc: B::Cache, p: RawArenaIndex, k: int, x: RawArenaIndex, e: B::Elem)
        requires self.lnk(g), self.nodes.contains_key(p), (g.ht)(p) == 1, 0 <= k <= self.n(p) < MAX_CHILDREN_NUM, !self.leaves.contains_key(x), e.ok(),
            self.cx(ArenaIndex::Internal(p)), B::USE_DIFF ==> self.caches_ok() && self.root_cache_ok(rc),
        ensures ({
            let t = self.put(p, k, x, e, B::ec(e));
            let g1 = g_ins(g, 0, (g.fst)(p) + k, p, x, 0);
            let u = ArenaIndex::Internal(p);
            &&& t.lnk(g1) && t.cx(u) && t.n(p) > 0
            &&& B::USE_DIFF && u != self.root ==> rc == t.kc(self.root)
            &&& B::USE_DIFF ==> t.pend(g1, rc, u, B::nd(B::ec(e)))
        })
    {
        let t = self.put(p, k, x, e, B::ec(e));
        let g1 = g_ins(g, 0, (g.fst)(p) + k, p, x, 0);
        let u = ArenaIndex::Internal(p);
        let d = B::nd(B::ec(e));
        self.lm_root(g);
        self.lm_put(g, p, k, x, e, B::ec(e));
        self.lm_put_cx(g, p, k, x, e);
        if B::USE_DIFF {
            B::law_c0();
            B::law_new(self.kids(p), k, B::ec(e));
            self.lm_node(g, p);
            if u != self.root {
                self.lm_par(g, u);
                self.lm_node(g, self.par(u));
                assert((g1.fst)(self.par(u)) == (g.fst)(self.par(u)));
            }
            assert(t.nodes.dom() =~= self.nodes.dom());
            lm_pend_at(self, t, g1, rc, p, d);
        }
    }
    // what recursive_update_cache needs after leaf l got the element f
    proof fn lm_changed(self, g: G, rc: B::Cache, l: RawArenaIndex, f: B::Elem)
        requires self.lnk(g), self.leaves.contains_key(l), self.caches_ok(), self.root_cache_ok(rc), f.ok()
        ensures ({
            let t1 = self.set_elem(l, f);
            let a = ArenaIndex::Leaf(l);
            let t = t1.fix(g, a);
            let u = t1.up(a);
            &&& t1.lnk(g) && t.cx(u) && t.n(u.ix()) > 0 && t1.has(a)
            &&& B::USE_DIFF && u != self.root ==> rc == t1.kc(self.root)
            &&& B::ec(f) == B::ec(self.leaves[l].elem) ==> t1.caches_ok() && t1.root_cache_ok(rc)
        })
    {
        let t1 = self.set_elem(l, f);
        let a = ArenaIndex::Leaf(l);
        let p = self.leaves[l].parent;
        let j = (g.lpos)(l) - (g.fst)(p);
        self.lm_root(g);
        self.lm_par(g, a);
        self.lm_node(g, p);
        self.lm_set_elem(g, l, f);
        t1.lm_up(g, a);
        let t = t1.setc(p, j, B::ec(f));
        assert(t == t1.fix(g, a));
        B::law_c0();
        assert(t1.kids(self.rt()) == self.kids(self.rt()));
        if B::ec(f) == B::ec(self.leaves[l].elem) {
            reveal(TS::caches_ok);
            assert forall|m: RawArenaIndex| #[trigger] t1.cache_ok(m) by { assert(self.cache_ok(m)); }
        }
    }
    // entry j of a node that is right already
    proof fn lm_fix_id(self, g: G, l: RawArenaIndex)
        requires self.lnk(g), self.leaves.contains_key(l), self.cx(ArenaIndex::Internal(self.leaves[l].parent))
        ensures self.fix(g, ArenaIndex::Leaf(l)) == self
    {
        let p = self.leaves[l].parent;
        let a = ArenaIndex::Leaf(l);
        self.lm_root(g); self.lm_par(g, a); self.lm_node(g, p);
        let j = (g.lpos)(l) - (g.fst)(p);
        reveal(TS::cx);
        assert(self.cx1(ArenaIndex::Internal(p), p));
        assert(self.nodes[p].ch[j].cache == self.kc(a));
        let t = self.fix(g, a);
        assert(t.nodes[p].ch =~= self.nodes[p].ch);
        assert(t.nodes =~= self.nodes);
    }
}
// t is o with other entries in p whose summary differs by d
proof fn lm_pend_at<B: BTreeTrait>(o: TS<B>, t: TS<B>, g: G, rc: B::Cache, p: RawArenaIndex, d: B::CacheDiff)
    requires o.caches_ok(), o.root_cache_ok(rc), t.cx(ArenaIndex::Internal(p)), B::sum(t.kids(p)) == B::app(B::sum(o.kids(p)), d), t.lnk(g), t.nodes.contains_key(p),
        t.root == o.root, B::exact0(), t.nodes.dom() == o.nodes.dom(),
        forall|m: RawArenaIndex| m != p ==> #[trigger] t.nodes[m] == o.nodes[m]
    ensures t.pend(g, rc, ArenaIndex::Internal(p), d)
{
    let a = ArenaIndex::Internal(p);
    t.lm_root(g);
    assert(t.kc(a) == B::app(o.kc(a), d));
    if a != t.root {
        t.lm_par(g, a);
        t.lm_node(g, p);
        let q = t.par(a);
        let j = plc(g, a) - (g.fst)(q);
        t.lm_node(g, q);
        assert(q != p);
        assert(t.nodes[q].ch[j].arena == a);
        assert(o.nodes.contains_key(q));
        o.lm_ch_cache(q);
    }
}
impl<B: BTreeTrait> BTree<B> {
    proof fn lm_placed_keep(&self, u: &Self, o: &Self, c: Cursor, x: Seq<<B::Elem as HasLength>::Unit>, r: Cursor, sl: Seq<LeafIndex>)
        requires u.placed(o, c, x, r, sl), self.order() == u.order(), self.ts().same_leaves(u.ts())
        ensures self.placed(o, c, x, r, sl)
    {
        reveal(TS::same_leaves); reveal(TS::same_but);
        let a = self.ts();
        let b = u.ts();
        assert(a.same_leaf(b, c.leaf.0) && a.same_leaf(b, r.leaf.0));
        if sl.len() > 0 { assert(a.same_leaf(b, sl[0].0)); }
        assert forall|i: RawArenaIndex, j: RawArenaIndex, k: RawArenaIndex| #[trigger] b.same_but(o.ts(), i, j, k) implies a.same_but(o.ts(), i, j, k) by {
            assert forall|l: RawArenaIndex| l != i && l != j && l != k implies #[trigger] a.same_leaf(o.ts(), l) by { assert(a.same_leaf(b, l)); assert(b.same_leaf(o.ts(), l)); }
        }
        let (l, n, s) = (c.leaf.0, r.leaf.0, if sl.len() > 0 { sl[0].0 } else { r.leaf.0 });
        assert(b.same_but(o.ts(), l, l, l) ==> a.same_but(o.ts(), l, l, l));
        assert(b.same_but(o.ts(), n, n, n) ==> a.same_but(o.ts(), n, n, n));
        assert(b.same_but(o.ts(), l, s, n) ==> a.same_but(o.ts(), l, s, n));
    }
    // the last steps of an insertion: the state u before the summaries were updated, v after it, self after the split
    proof fn lm_same_refl(&self, u: &Self)
        requires self.leaf_nodes == u.leaf_nodes
        ensures self.ts().same_leaves(u.ts())
    { reveal(TS::same_leaves); assert forall|l: RawArenaIndex| #[trigger] self.ts().same_leaf(u.ts(), l) by {} }
//@ code src/lib.rs "BTree::insert_by_path" tags=C03,C04,C05,C07,C16
    fn insert_by_path(&mut self, cursor: Cursor, data: B::Elem) -> «(q:» (Cursor, SplittedLeaves)«)
        requires old(self).inv(), old(self).valid(cursor), data.ok()
        ensures /*C04 C05*/ final(self).inv(), final(self).uses(old(self)),
            /*C03 C07*/ final(self).placed(old(self), cursor, data.content(), q.0, q.1.arr@),
            /*C03*/ final(self).spliced(old(self), cursor, data.content(), q.0)»
    {
        «let ghost o = *self; let ghost t0 = self.ts(); let ghost g = self.g@; let ghost l = cursor.leaf.0; let ghost p = t0.leaves[l].parent; let ghost x = data;
        let ghost e0 = t0.leaves[l].elem; let ghost k = cursor.offset as int; let ghost e1 = e0.content().subrange(0, k); let ghost e2 = e0.content().subrange(k, e0.content().len() as int);
        let ghost d = B::nd(B::ec(x));
        proof { t0.lm_root(g); t0.lm_par(g, ArenaIndex::Leaf(l)); t0.lm_node(g, p); t0.lm_elems_ok(l); }»
        let index = cursor.leaf;
        let leaf = self.leaf_nodes.get_mut(index.0).unwrap();
        let mut parent_idx = leaf.parent();
        let cache_diff = if B::USE_DIFF {
            Some(B::new_cache_to_diff(&B::get_elem_cache(&data)))
        } else {
            None
        };
        let mut is_full = false;
        let mut splitted: SplittedLeaves = SplittedLeaves::vx_default();
        let ans = match leaf.elem.try_insert(cursor.offset, data) {
            Ok(_) => cursor,
            Err(data) => {
                if cursor.offset == 0 && data.can_merge(&leaf.elem) {
                    leaf.elem.merge_left(&data);
                    «proof { assert(x.content() + e0.content() =~= e1 + x.content() + e2); }»
                    Cursor {
                        leaf: index,
                        offset: 0,
                    }
                } else if cursor.offset == leaf.elem.rle_len() && leaf.elem.can_merge(&data) {
                    let offset = leaf.elem.rle_len();
                    leaf.elem.merge_right(&data);
                    «proof { assert(e0.content() + x.content() =~= e1 + x.content() + e2); }»
                    Cursor {
                        leaf: index,
                        offset,
                    }
                } else {
                    «proof { assert(self.ts().nodes =~= t0.nodes); assert(self.ts().leaves =~= t0.leaves); }»
                    let SplitInfo {
                        parent_idx: parent_index,
                        insert_slot: insert_index,
                        new_leaf,
                        ..
                    } = self.split_leaf_if_needed(cursor);
                    «let ghost s1 = *self; let ghost t1 = s1.ts();»
                    parent_idx = ArenaIndex::Internal(parent_index);
                    let child = self.alloc_leaf_child(data, parent_index);
                    let ans = child.arena;
                    splitted.push_option(new_leaf);
                    «let ghost n = ans.ix(); let ghost t2 = t1.put(parent_index, insert_index as int, n, x, B::ec(x));
                    let ghost g1 = g_ins(s1.g@, 0, (s1.g@.fst)(parent_index) + insert_index, parent_index, n, 0);
                    proof {
                        t1.lm_roomy(parent_index); t1.lm_node(s1.g@, parent_index);
                        assert(t1.nodes[parent_index] == ns(s1.in_nodes@[parent_index]));
                        t1.lm_put(s1.g@, parent_index, insert_index as int, n, x, B::ec(x));
                        t1.lm_added(s1.g@, s1.root_cache, parent_index, insert_index as int, n, x);
                        t2.lm_fix_id(g1, l);
                    }»
                    let parent = self.in_nodes.get_mut(parent_index).unwrap();
                    parent.children.insert(insert_index, child).unwrap();
                    is_full = parent.is_full();
                    «proof {
                        self.g = Ghost(g1);
                        assert(ns(self.in_nodes@[parent_index]).ch =~= t2.nodes[parent_index].ch);
                        assert(self.ts().nodes =~= t2.nodes);
                        assert(self.ts().leaves =~= t2.leaves);
                        reveal(TS::same_but);
                        if new_leaf is Some {
                            let s = new_leaf->0.ix();
                            assert forall|y: RawArenaIndex| y != l && y != s && y != n implies #[trigger] t2.same_leaf(t0, y) by { assert(t2.same_leaf(t1, y)); assert(t1.same_leaf(t0, y)); }
                            assert(t2.same_leaf(t1, s) && t2.same_leaf(t1, l));
                            assert(splitted.arr@ =~= seq![LeafIndex(s)]);
                        } else {
                            assert(t2.same_leaf(t1, l));
                        }
                        if !is_full { t2.lm_roomy_all(parent_index); }
                    }»
                    Cursor {
                        leaf: ans.unwrap().into(),
                        offset: 0,
                    }
                }
            }
        };
        «let ghost u = *self;
        proof {
            if ans == cursor {
                let f = u.leaf_nodes@[l].elem;
                assert(f.ok());
                assert(f.content() == e1 + x.content() + e2);
                t0.lm_grown(g, o.root_cache, l, k, x, f);
                t0.lm_set_elem(g, l, f);
                assert(u.ts().nodes =~= t0.set_elem(l, f).nodes);
                assert(u.ts().leaves =~= t0.set_elem(l, f).leaves);
                assert(u.ts() == t0.set_elem(l, f));
            }
            assert(u.placed(&o, cursor, x.content(), ans, splitted.arr@));
            assert(u.ts().elems_ok());
            u.ts().lm_elems_ok(l);
        }»
        self.recursive_update_cache(cursor.leaf.into(), B::USE_DIFF, cache_diff);
        «let ghost v = *self;
        proof {
            u.ts().lm_sim(v.ts(), u.g@);
            v.lm_same_refl(&u);
            v.ts().lm_same_elems(u.ts());
            v.lm_placed_keep(&u, &o, cursor, x.content(), ans, splitted.arr@);
            if is_full { u.ts().lm_sim_roomy(v.ts(), parent_idx.ix()); u.ts().lm_sim1(v.ts(), parent_idx.ix()); }
        }»
        if is_full {
            self.split(parent_idx);
            «proof { self.ts().lm_same_elems(v.ts()); self.lm_placed_keep(&v, &o, cursor, x.content(), ans, splitted.arr@); }»
        }
        «proof { self.lm_placed(&o, cursor, x.content(), ans, splitted.arr@); }»
        (ans, splitted)
    }
//@ end

    // the first i leaves of o are still the first ones, with what they had but for the last of them
    spec fn front(&self, o: &Self, i: int) -> bool {
        &&& 0 <= i <= o.order().len() && i <= self.order().len()
        &&& forall|j: int| 0 <= j < i ==> #[trigger] self.order()[j] == o.order()[j]
        &&& forall|j: int| 0 <= j < i - 1 ==> #[trigger] self.items()[j] == o.items()[j]
    }
    spec fn place(&self, c: Cursor) -> int { self.at(c.leaf) + (if c.offset > 0 { 1int } else { 0 }) }
    proof fn lm_front_trans(&self, u: &Self, o: &Self, i: int)
        requires self.front(u, i), u.front(o, i)
        ensures self.front(o, i)
    {
        assert forall|j: int| 0 <= j < i implies #[trigger] self.order()[j] == o.order()[j] by { assert(u.order()[j] == o.order()[j]); }
        assert forall|j: int| 0 <= j < i - 1 implies #[trigger] self.items()[j] == o.items()[j] by { assert(u.items()[j] == o.items()[j]); }
    }
    proof fn lm_front_placed(&self, u: &Self, c: Cursor, x: Seq<<B::Elem as HasLength>::Unit>, r: Cursor, sl: Seq<LeafIndex>, i: int)
        requires self.placed(u, c, x, r, sl), u.ts().lnk(u.g@), self.ts().lnk(self.g@), u.valid(c), 0 <= i <= u.place(c)
        ensures self.front(u, i), self.place(r) >= i
    {
        u.lm_at_o(); self.lm_at_o();
        u.ts().lm_root(u.g@); u.ts().lm_leaf(u.g@, c.leaf.0);
        self.ts().lm_leaf(self.g@, r.leaf.0);
        let (l, n, s) = (c.leaf.0, r.leaf.0, if sl.len() > 0 { sl[0].0 } else { r.leaf.0 });
        assert(self.ts().same_but(u.ts(), l, l, l) || self.ts().same_but(u.ts(), n, n, n) || self.ts().same_but(u.ts(), l, s, n));
        let k = u.at(c.leaf);
        if self.order() == u.order() {
        } else if self.order() == u.order().insert(k, n) { assert(self.order()[k] == n); }
        else if self.order() == u.order().insert(k + 1, n) { assert(self.order()[k + 1] == n); }
        else { assert(self.order()[k + 1] == n); }
        assert forall|j: int| 0 <= j < i implies #[trigger] self.order()[j] == u.order()[j] by {}
        assert forall|j: int| 0 <= j < i - 1 implies #[trigger] self.items()[j] == u.items()[j] by {
            let y = u.order()[j];
            assert(self.order()[j] == y);
            assert(y != l && (y != n || n == l) && (y != s || s == l));
            if self.ts().same_but(u.ts(), l, l, l) { self.ts().lm_same_but(u.ts(), l, l, l, y); }
            else if self.ts().same_but(u.ts(), n, n, n) { self.ts().lm_same_but(u.ts(), n, n, n, y); }
            else { self.ts().lm_same_but(u.ts(), l, s, n, y); }
        }
    }
    proof fn lm_front_end(&self, o: &Self, x: Seq<<B::Elem as HasLength>::Unit>, r: Cursor)
        requires o.ts().lnk(o.g@), o.ts().elems_ok(), self.ts().lnk(self.g@), o.order().len() > 0 ==> self.placed(o, o.end(), x, r, Seq::empty()),
            o.order().len() > 0 ==> self.order() == o.order() || self.order() == o.order().insert(o.order().len() as int, r.leaf.0)
        ensures self.front(o, o.order().len() as int)
    {
        if o.order().len() > 0 {
            o.lm_at_o(); self.lm_at_o(); o.lm_ends();
            let (l, n) = (o.order().last(), r.leaf.0);
            assert(self.ts().same_but(o.ts(), l, l, l) || self.ts().same_but(o.ts(), n, n, n));
            assert forall|j: int| 0 <= j < o.order().len() - 1 implies #[trigger] self.items()[j] == o.items()[j] by {
                let y = o.order()[j];
                assert(self.order()[j] == y);
                assert(y != l);
                if self.ts().same_but(o.ts(), l, l, l) { self.ts().lm_same_but(o.ts(), l, l, l, y); } else { self.ts().lm_same_but(o.ts(), n, n, n, y); }
            }
        }
    }
    proof fn lm_front_cut(&self, u: &Self, c: Cursor, new_leaf: Option<ArenaIndex>, q: Cursor, i: int)
        requires u.ts().lnk(u.g@), self.ts().lnk(self.g@), u.valid(c), self.cut_leaf(u, c, new_leaf), 0 <= i <= u.place(c),
            q == (if new_leaf is Some { Cursor { leaf: LeafIndex((new_leaf->0).ix()), offset: 0 } }
                else if c.offset == 0 { c }
                else if u.at(c.leaf) + 1 < u.order().len() { Cursor { leaf: LeafIndex(u.order()[u.at(c.leaf) + 1]), offset: 0 } }
                else { c })
        ensures self.front(u, i), self.place(q) >= i
    {
        u.lm_at_o(); self.lm_at_o();
        u.ts().lm_root(u.g@); u.ts().lm_leaf(u.g@, c.leaf.0);
        match new_leaf {
            None => { assert(self.order() == u.order()); assert(self.items() =~= u.items()); }
            Some(a) => {
                let (l, x) = (c.leaf.0, a.ix());
                assert(self.order()[u.at(c.leaf) + 1] == x);
                assert forall|j: int| 0 <= j < i - 1 implies #[trigger] self.items()[j] == u.items()[j] by {
                    assert(self.order()[j] == u.order()[j]);
                    self.ts().lm_same_but(u.ts(), l, x, x, u.order()[j]);
                }
            },
        }
    }
    proof fn lm_front_refl(&self, c: Cursor)
        requires self.ts().lnk(self.g@), self.valid(c)
        ensures self.front(self, self.place(c)), 0 <= self.place(c) <= self.order().len()
    { self.ts().lm_root(self.g@); self.ts().lm_leaf(self.g@, c.leaf.0); self.lm_at_o(); }
    proof fn lm_front_same(&self, u: &Self, l: RawArenaIndex, i: int)
        requires u.ts().lnk(u.g@), self.g == u.g, self.ts().lnk(self.g@), self.ts().same_but(u.ts(), l, l, l), u.leaf_nodes@.contains_key(l), 0 <= i <= (u.g@.lpos)(l) + 1
        ensures self.front(u, i)
    {
        u.lm_at_o(); self.lm_at_o();
        u.ts().lm_root(u.g@); u.ts().lm_leaf(u.g@, l);
        assert forall|j: int| 0 <= j < i - 1 implies #[trigger] self.items()[j] == u.items()[j] by {
            assert(self.order()[j] == u.order()[j]);
            self.ts().lm_same_but(u.ts(), l, l, l, u.order()[j]);
        }
    }
    // what push and prepend do, where c is the end of o they add to
    spec fn added(&self, o: &Self, i: int, c: Cursor, x: Seq<<B::Elem as HasLength>::Unit>, r: Cursor) -> bool {
        &&& self.put_at(o, i, x, r)
        &&& o.order().len() > 0 ==> self.placed(o, c, x, r, Seq::empty())
        &&& o.order().len() == 0 ==> self.order() == seq![r.leaf.0] && !o.leaf_nodes.used().contains(r.leaf.0)
    }
//@ code src/lib.rs "BTree::push" tags=C02,C03,C04,C05,C07,C16
    fn push(&mut self, elem: B::Elem) -> «(r:» Cursor«)
        requires old(self).inv(), elem.ok()
        ensures /*C02*/ old(self).ts().fat(old(self).g@) ==> final(self).ts().fat(final(self).g@), /*C04 C05*/ final(self).inv(), final(self).uses(old(self)),
            /*C03 C07*/ final(self).added(old(self), old(self).all().len() as int, old(self).end(), elem.content(), r),
            /*C03 C07*/ final(self).front(old(self), old(self).order().len() as int),
            /*C03*/ final(self).all() == old(self).all() + elem.content()»
    {
        «let ghost o = *self; let ghost t0 = self.ts(); let ghost g = self.g@; let ghost x = elem; let ghost l = if o.order().len() > 0 { o.order().last() } else { arbitrary() };
        proof { t0.lm_root(g); t0.lm_node(g, t0.rt()); if o.order().len() > 0 { o.lm_ends(); t0.lm_elems_ok(l); t0.lm_par(g, ArenaIndex::Leaf(l)); t0.lm_node(g, t0.leaves[l].parent); } }»
        let mut is_full = false;
        let mut parent_idx = self.root;
        let mut update_cache_idx = parent_idx;
        let cache = B::get_elem_cache(&elem);
        let ans = if self.is_empty() {
            «let ghost p = parent_idx.ix(); proof { t0.lm_cx_of(parent_idx); assert(t0.nodes[p] == ns(o.in_nodes@[p])); }»
            let data = self.alloc_leaf_child(elem, parent_idx.unwrap());
            «let ghost n = data.arena.ix(); let ghost t2 = t0.put(p, 0, n, x, B::ec(x)); let ghost g1 = g_ins(g, 0, 0, p, n, 0);
            proof { t0.lm_put(g, p, 0, n, x, B::ec(x)); t0.lm_added(g, o.root_cache, p, 0, n, x); if t0.fat(g) { t0.lm_put_fat(g, p, 0, n, x, B::ec(x)); } }»
            let parent = self.in_nodes.get_mut(parent_idx.unwrap()).unwrap();
            let ans = data.arena;
            parent.children.push(data).unwrap();
            «proof {
                self.g = Ghost(g1);
                assert(ns(self.in_nodes@[p]).ch =~= t2.nodes[p].ch);
                assert(self.ts().nodes =~= t2.nodes);
                assert(self.ts().leaves =~= t2.leaves);
                assert(self.ts() == t2);
                t2.lm_roomy_all(p);
                self.lm_single(&o, x.content(), n);
                assert(self.order() =~= seq![n]);
            }»
            Cursor {
                leaf: ans.unwrap().into(),
                offset: 0,
            }
        } else {
            let leaf_idx = self.last_leaf().unwrap();
            let leaf = self.leaf_nodes.get_mut(leaf_idx.0).unwrap();
            parent_idx = leaf.parent();
            «let ghost p = parent_idx.ix(); let ghost k = o.el(l).len() as int;»
            if leaf.elem.can_merge(&elem) {
                update_cache_idx = leaf_idx.into();
                let offset = leaf.elem.rle_len();
                leaf.elem.merge_right(&elem);
                «proof {
                    let e0 = t0.leaves[l].elem;
                    let f = self.leaf_nodes@[l].elem;
                    assert(f.content() =~= e0.content().subrange(0, k) + x.content() + e0.content().subrange(k, e0.content().len() as int));
                    t0.lm_grown(g, o.root_cache, l, k, x, f);
                    t0.lm_set_elem(g, l, f);
                    assert(self.ts().nodes =~= t0.set_elem(l, f).nodes);
                    assert(self.ts().leaves =~= t0.set_elem(l, f).leaves);
                    assert(self.ts() == t0.set_elem(l, f)); if t0.fat(g) { t0.lm_nodes_fat(self.ts(), g); }
                    assert(self.placed(&o, o.end(), x.content(), o.end(), Seq::empty()));
                }»
                Cursor {
                    leaf: leaf_idx,
                    offset,
                }
            } else {
                «let ghost kk = t0.n(p); proof { t0.lm_roomy(p); t0.lm_cx_of(parent_idx); assert(self.ts().nodes =~= t0.nodes); assert(self.ts().leaves =~= t0.leaves); assert(self.ts() == t0);
                    assert(t0.nodes[p] == ns(o.in_nodes@[p])); assert((g.fst)(p) + kk == o.order().len()); }»
                let data = self.alloc_leaf_child(elem, parent_idx.unwrap());
                «let ghost n = data.arena.ix(); let ghost t2 = t0.put(p, kk, n, x, B::ec(x)); let ghost g1 = g_ins(g, 0, o.order().len() as int, p, n, 0);
                proof { t0.lm_put(g, p, kk, n, x, B::ec(x)); t0.lm_added(g, o.root_cache, p, kk, n, x); if t0.fat(g) { t0.lm_put_fat(g, p, kk, n, x, B::ec(x)); } }»
                let parent = self.in_nodes.get_mut(parent_idx.unwrap()).unwrap();
                let ans = data.arena;
                update_cache_idx = parent_idx;
                parent.children.push(data).unwrap();
                is_full = parent.is_full();
                «proof {
                    self.g = Ghost(g1);
                    assert(ns(self.in_nodes@[p]).ch =~= t2.nodes[p].ch);
                    assert(self.ts().nodes =~= t2.nodes);
                    assert(self.ts().leaves =~= t2.leaves);
                    assert(self.ts() == t2);
                    if !is_full { t2.lm_roomy_all(p); }
                    o.lm_used(&o);
                    t2.lm_same_but(t0, n, n, n, l);
                    assert(self.placed(&o, o.end(), x.content(), Cursor { leaf: LeafIndex(n), offset: 0 }, Seq::empty()));
                }»
                Cursor {
                    leaf: ans.unwrap().into(),
                    offset: 0,
                }
            }
        };
        «let ghost u = *self;
        proof {
            assert(o.order().len() > 0 ==> u.placed(&o, o.end(), x.content(), ans, Seq::empty()));
            assert(o.order().len() > 0 ==> u.order() == o.order() || u.order() == o.order().insert(o.order().len() as int, ans.leaf.0));
            if update_cache_idx is Leaf { u.ts().lm_elems_ok(l); }
        }»
        self.recursive_update_cache(
            update_cache_idx,
            B::USE_DIFF,
            if B::USE_DIFF {
                Some(B::new_cache_to_diff(&cache))
            } else {
                None
            },
        );
        «let ghost v = *self;
        proof {
            u.ts().lm_sim(v.ts(), u.g@); u.ts().lm_sim_fat(v.ts(), u.g@, u.ts().rt());
            v.lm_same_refl(&u);
            v.ts().lm_same_elems(u.ts());
            if o.order().len() > 0 { v.lm_placed_keep(&u, &o, o.end(), x.content(), ans, Seq::empty()); }
            else { v.lm_single(&o, x.content(), ans.leaf.0); }
            if is_full { u.ts().lm_sim_roomy(v.ts(), parent_idx.ix()); u.ts().lm_sim1(v.ts(), parent_idx.ix()); }
        }»
        if is_full {
            self.split(parent_idx);
            «proof { self.ts().lm_same_elems(v.ts()); self.lm_placed_keep(&v, &o, o.end(), x.content(), ans, Seq::empty()); }»
        }
        «proof {
            if o.order().len() > 0 { self.lm_placed(&o, o.end(), x.content(), ans, Seq::empty()); }
            self.lm_front_end(&o, x.content(), ans);
            assert(self.all() =~= o.all() + x.content());
        }»
        ans
    }
//@ end
//@ code src/lib.rs "BTree::prepend" tags=C03,C04,C05,C07,C16
    fn prepend(&mut self, elem: B::Elem) -> «(r:» Cursor«)
        requires old(self).inv(), elem.ok()
        ensures /*C04 C05*/ final(self).inv(), final(self).uses(old(self)),
            /*C03 C07*/ final(self).added(old(self), 0, old(self).begin(), elem.content(), r),
            /*C03*/ final(self).all() == elem.content() + old(self).all()»
    {
        «let ghost o = *self; let ghost t0 = self.ts(); let ghost g = self.g@; let ghost x = elem; let ghost l = if o.order().len() > 0 { o.order()[0] } else { arbitrary() };
        proof { t0.lm_root(g); t0.lm_node(g, t0.rt()); if o.order().len() > 0 { o.lm_ends(); t0.lm_elems_ok(l); t0.lm_par(g, ArenaIndex::Leaf(l)); t0.lm_node(g, t0.leaves[l].parent); } }»
        let Some(leaf_idx) = self.first_leaf() else {
            let parent_idx = self.root;
            «let ghost p = parent_idx.ix(); proof { o.lm_empty(); t0.lm_cx_of(parent_idx); assert(t0.nodes[p] == ns(o.in_nodes@[p])); }»
            let data = self.alloc_leaf_child(elem, parent_idx.unwrap());
            «let ghost n = data.arena.ix(); let ghost t2 = t0.put(p, 0, n, x, B::ec(x)); let ghost g1 = g_ins(g, 0, 0, p, n, 0);
            proof { t0.lm_put(g, p, 0, n, x, B::ec(x)); t0.lm_put_cx(g, p, 0, n, x); }»
            let parent = self.in_nodes.get_mut(parent_idx.unwrap()).unwrap();
            let ans = data.arena;
            parent.children.push(data).unwrap();
            «proof {
                self.g = Ghost(g1);
                assert(ns(self.in_nodes@[p]).ch =~= t2.nodes[p].ch);
                assert(self.ts().nodes =~= t2.nodes);
                assert(self.ts().leaves =~= t2.leaves);
                assert(self.ts() == t2);
                t2.lm_roomy_all(p);
                t2.lm_cx_root(g1);
            } let ghost u = *self;»
            self.update_root_cache();
            «proof {
                assert(self.ts() == u.ts());
                self.lm_single(&o, x.content(), n);
                assert(self.order() =~= seq![n]);
                assert(self.all() =~= x.content() + o.all());
            }»
            return Cursor {
                leaf: ans.unwrap().into(),
                offset: 0,
            };
        };
        let leaf = self.leaf_nodes.get_mut(leaf_idx.0).unwrap();
        let parent_idx = leaf.parent();
        «let ghost p = parent_idx.ix();»
        let mut is_full = false;
        let ans = if elem.can_merge(&leaf.elem) {
            leaf.elem.merge_left(&elem);
            «proof {
                let e0 = t0.leaves[l].elem;
                let f = self.leaf_nodes@[l].elem;
                assert(f.content() =~= e0.content().subrange(0, 0) + x.content() + e0.content().subrange(0, e0.content().len() as int));
                t0.lm_grown(g, o.root_cache, l, 0, x, f);
                t0.lm_set_elem(g, l, f);
                assert(self.ts().nodes =~= t0.set_elem(l, f).nodes);
                assert(self.ts().leaves =~= t0.set_elem(l, f).leaves);
                assert(self.ts() == t0.set_elem(l, f));
                assert(self.placed(&o, o.begin(), x.content(), o.begin(), Seq::empty()));
            }»
            Cursor {
                leaf: leaf_idx,
                offset: 0,
            }
        } else {
            let parent_idx = leaf.parent;
            «proof { t0.lm_roomy(p); t0.lm_cx_of(ArenaIndex::Internal(p)); assert(self.ts().nodes =~= t0.nodes); assert(self.ts().leaves =~= t0.leaves); assert(self.ts() == t0);
                assert(t0.nodes[p] == ns(o.in_nodes@[p])); assert((g.fst)(p) == 0); }»
            let data = self.alloc_leaf_child(elem, parent_idx);
            «let ghost n = data.arena.ix(); let ghost t2 = t0.put(p, 0, n, x, B::ec(x)); let ghost g1 = g_ins(g, 0, 0, p, n, 0);
            proof { t0.lm_put(g, p, 0, n, x, B::ec(x)); t0.lm_added(g, o.root_cache, p, 0, n, x); t2.lm_fix_id(g1, l); }»
            let parent = self.in_nodes.get_mut(parent_idx).unwrap();
            let ans = data.arena;
            parent.children.insert(0, data).unwrap();
            is_full = parent.is_full();
            «proof {
                self.g = Ghost(g1);
                assert(ns(self.in_nodes@[p]).ch =~= t2.nodes[p].ch);
                assert(self.ts().nodes =~= t2.nodes);
                assert(self.ts().leaves =~= t2.leaves);
                assert(self.ts() == t2);
                if !is_full { t2.lm_roomy_all(p); }
                o.lm_used(&o);
                t2.lm_same_but(t0, n, n, n, l);
                assert(self.placed(&o, o.begin(), x.content(), Cursor { leaf: LeafIndex(n), offset: 0 }, Seq::empty()));
            }»
            Cursor {
                leaf: ans.unwrap().into(),
                offset: 0,
            }
        };
        «let ghost u = *self;
        proof {
            assert(u.placed(&o, o.begin(), x.content(), ans, Seq::empty()));
            u.ts().lm_elems_ok(l);
        }»
        self.recursive_update_cache(leaf_idx.into(), B::USE_DIFF, None);
        «let ghost v = *self;
        proof {
            u.ts().lm_sim(v.ts(), u.g@);
            v.lm_same_refl(&u);
            v.ts().lm_same_elems(u.ts());
            v.lm_placed_keep(&u, &o, o.begin(), x.content(), ans, Seq::empty());
            if is_full { u.ts().lm_sim_roomy(v.ts(), parent_idx.ix()); u.ts().lm_sim1(v.ts(), parent_idx.ix()); }
        }»
        if is_full {
            self.split(parent_idx);
            «proof { self.ts().lm_same_elems(v.ts()); self.lm_placed_keep(&v, &o, o.begin(), x.content(), ans, Seq::empty()); }»
        }
        «proof {
            self.lm_placed(&o, o.begin(), x.content(), ans, Seq::empty());
            assert(self.all() =~= x.content() + o.all());
        }»
        ans
    }
//@ end
//@ code src/lib.rs "BTree::insert" tags=C03,C04,C05,C07,C16
    fn insert<Q>(
        &mut self,
        q: &Q::QueryArg,
        data: B::Elem
    ) -> «(r:» (Cursor, SplittedLeaves)«)»
    where
        Q: Query<B>,
«        requires old(self).inv(), data.ok(),
            old(self).order().len() > 0 ==> old(self).ts().descent_ok(old(self).g@, Q::q_init(*q), *q, old(self).ts().rt())
                && old(self).valid(old(self).ts().descend(old(self).g@, Q::q_init(*q), *q, old(self).ts().rt(), true).0.cursor)
        ensures /*C04 C05*/ final(self).inv(), final(self).uses(old(self)),
            // at the cursor the query finds
            /*C03*/ old(self).order().len() > 0 ==> ({
                let c = old(self).ts().descend(old(self).g@, Q::q_init(*q), *q, old(self).ts().rt(), true).0.cursor;
                final(self).placed(old(self), c, data.content(), r.0, r.1.arr@) && final(self).spliced(old(self), c, data.content(), r.0)
            }),
            /*C03*/ old(self).order().len() == 0 ==> final(self).all() == data.content() && final(self).added(old(self), 0, old(self).begin(), data.content(), r.0) && r.1.arr@.len() == 0»
    {
        let Some(result) = self.query::<Q>(q) else {
            «let ghost o = *self; proof { assert(o.items() =~= Seq::empty()); assert(forall|s: Seq<<B::Elem as HasLength>::Unit>| #[trigger] (o.all() + s) =~= s); }»
            return (self.push(data), SplittedLeaves::vx_default());
        };
        self.insert_by_path(result.cursor, data)
    }
//@ end
}
