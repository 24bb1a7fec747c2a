// Dropping a Drain: the summaries above the two ends, and what is left too small. (C09, C05)
impl<B: BTreeTrait> TS<B> {
    // the node of height j above leaf l
    spec fn up_at(self, l: RawArenaIndex, j: int) -> RawArenaIndex
        decreases j
    { if j <= 1 { self.leaves[l].parent } else { self.par(ArenaIndex::Internal(self.up_at(l, j - 1))) } }
    spec fn anc(self, g: G, l: RawArenaIndex, y: RawArenaIndex) -> bool { y == self.up_at(l, (g.ht)(y)) }
    // f, but not above l
    spec fn less(self, g: G, l: RawArenaIndex, f: spec_fn(RawArenaIndex) -> bool) -> spec_fn(RawArenaIndex) -> bool {
        |y: RawArenaIndex| f(y) && !self.anc(g, l, y)
    }
    // f, but above l only from height h
    spec fn rest(self, g: G, l: RawArenaIndex, f: spec_fn(RawArenaIndex) -> bool, h: int) -> spec_fn(RawArenaIndex) -> bool {
        |y: RawArenaIndex| (f(y) && !(self.anc(g, l, y) && (g.ht)(y) < h)) || (self.anc(g, l, y) && (g.ht)(y) == h)
    }
    proof fn lm_up_at(self, g: G, l: RawArenaIndex, j: int)
        requires self.lnk(g), self.leaves.contains_key(l), 1 <= j < g.lv.len()
        ensures self.nodes.contains_key(self.up_at(l, j)), (g.ht)(self.up_at(l, j)) == j, self.n(self.up_at(l, j)) > 0,
            j > 1 ==> self.up_at(l, j) == self.par(ArenaIndex::Internal(self.up_at(l, j - 1))) && self.up_at(l, j - 1) != self.rt(),
            j == g.lv.len() - 1 ==> self.up_at(l, j) == self.rt(), self.anc(g, l, self.up_at(l, j)),
        decreases j
    {
        self.lm_root(g);
        self.lm_leaf(g, l);
        if j > 1 {
            self.lm_up_at(g, l, j - 1);
            let x = self.up_at(l, j - 1);
            self.lm_node(g, x);
            self.lm_par(g, ArenaIndex::Internal(x));
        } else { self.lm_par(g, ArenaIndex::Leaf(l)); }
        self.lm_node(g, self.up_at(l, j));
    }
    proof fn lm_up_order(self, g: G, l: RawArenaIndex, m: RawArenaIndex, j: int)
        requires self.lnk(g), self.leaves.contains_key(l), self.leaves.contains_key(m), 1 <= j < g.lv.len(), (g.lpos)(l) <= (g.lpos)(m)
        ensures (g.pos)(self.up_at(l, j)) <= (g.pos)(self.up_at(m, j))
        decreases j
    {
        self.lm_root(g);
        self.lm_up_at(g, l, j); self.lm_up_at(g, m, j);
        let a = if j == 1 { ArenaIndex::Leaf(l) } else { ArenaIndex::Internal(self.up_at(l, j - 1)) };
        let b = if j == 1 { ArenaIndex::Leaf(m) } else { ArenaIndex::Internal(self.up_at(m, j - 1)) };
        if j > 1 { self.lm_up_order(g, l, m, j - 1); self.lm_up_at(g, l, j - 1); self.lm_up_at(g, m, j - 1); }
        self.lm_par(g, a); self.lm_par(g, b);
        let (p, q) = (self.up_at(l, j), self.up_at(m, j));
        if (g.pos)(p) > (g.pos)(q) { self.lm_order(g, q, p); }
    }
    // who is between two leaves under y is under y
    proof fn lm_up_mid(self, g: G, l: RawArenaIndex, x: RawArenaIndex, m: RawArenaIndex, j: int)
        requires self.lnk(g), self.leaves.contains_key(l), self.leaves.contains_key(x), self.leaves.contains_key(m), 1 <= j < g.lv.len(),
            (g.lpos)(l) <= (g.lpos)(x) <= (g.lpos)(m), self.up_at(l, j) == self.up_at(m, j)
        ensures self.up_at(x, j) == self.up_at(l, j)
    {
        self.lm_up_order(g, l, x, j); self.lm_up_order(g, x, m, j);
        self.lm_up_at(g, l, j); self.lm_up_at(g, x, j);
        self.lm_order(g, self.up_at(l, j), self.up_at(x, j));
    }
    proof fn lm_up_path(self, g: G, p: Seq<Idx>, l: RawArenaIndex, i: int)
        requires self.shape(g), self.path_ok(p), p.len() == g.lv.len(), p.last().arena == ArenaIndex::Leaf(l), 0 <= i < p.len() - 1
        ensures p[i].arena == ArenaIndex::Internal(self.up_at(l, p.len() - 1 - i))
        decreases p.len() - i
    {
        self.lm_root(g);
        lm_path_node(self, g, p, i);
        if i == p.len() - 2 {
            assert(self.step_ok(p, i));
            self.lm_child(g, p[i].arena.ix(), p[i + 1].arr as int);
        } else {
            self.lm_up_path(g, p, l, i + 1);
            lm_path_node(self, g, p, i + 1);
        }
    }
    // there is a leaf below y
    proof fn lm_up_down(self, g: G, y: RawArenaIndex) -> (l: RawArenaIndex)
        requires self.lnk(g), self.sized_but(g, self.rt()), self.nodes.contains_key(y), y != self.rt()
        ensures self.leaves.contains_key(l), self.anc(g, l, y)
        decreases (g.ht)(y)
    {
        self.lm_sized_but(g, self.rt(), y);
        self.lm_node(g, y);
        self.lm_root(g);
        assert(self.n(y) > 0);
        self.lm_child(g, y, 0);
        let a = self.nodes[y].ch[0].arena;
        match a {
            ArenaIndex::Leaf(l) => l,
            ArenaIndex::Internal(m) => { self.lm_node(g, m); let l = self.lm_up_down(g, m); self.lm_up_at(g, l, (g.ht)(y)); l }
        }
    }
    proof fn lm_up_same(self, k: G, o: TS<B>, l: RawArenaIndex, j: int)
        requires self.lnk(k), self.leaves.contains_key(l), o.leaves.contains_key(l), self.leaves[l].parent == o.leaves[l].parent, 1 <= j < k.lv.len(),
            forall|y: RawArenaIndex| self.nodes.contains_key(y) ==> #[trigger] self.nodes[y].par == o.nodes[y].par
        ensures self.up_at(l, j) == o.up_at(l, j)
        decreases j
    { if j > 1 { self.lm_up_same(k, o, l, j - 1); self.lm_up_at(k, l, j - 1); assert(self.nodes[self.up_at(l, j - 1)].par == o.nodes[self.up_at(l, j - 1)].par); } }
    proof fn lm_up_sim(self, o: TS<B>, g: G, l: RawArenaIndex, j: int)
        requires self.sim(o), self.lnk(g), self.leaves.contains_key(l), 1 <= j < g.lv.len()
        ensures self.up_at(l, j) == o.up_at(l, j)
        decreases j
    { self.lm_sim1(o, l); if j > 1 { self.lm_up_sim(o, g, l, j - 1); self.lm_up_at(g, l, j - 1); self.lm_sim1(o, self.up_at(l, j - 1)); } }
    proof fn lm_less_sim(self, o: TS<B>, g: G, l: RawArenaIndex, f: spec_fn(RawArenaIndex) -> bool)
        requires self.sim(o), self.lnk(g), self.leaves.contains_key(l), o.cxs(self.less(g, l, f))
        ensures o.cxs(o.less(g, l, f))
    {
        let (f1, f2) = (self.less(g, l, f), o.less(g, l, f));
        reveal(TS::cxs);
        self.lm_sim(o, g);
        assert forall|m: RawArenaIndex| #[trigger] o.cxs1(f2, m) by {
            assert(o.cxs1(f1, m));
            if o.nodes.contains_key(m) {
                assert forall|k: int| 0 <= k < o.n(m) && f1((#[trigger] o.nodes[m].ch[k]).arena.ix()) && o.nodes[m].ch[k].arena is Internal implies f2(o.nodes[m].ch[k].arena.ix()) by {
                    o.lm_child(g, m, k); o.lm_node(g, m); let y = o.nodes[m].ch[k].arena.ix(); o.lm_node(g, y); self.lm_up_sim(o, g, l, (g.ht)(y));
                }
            }
        }
    }
    // the entry for c has been set right
    proof fn lm_cxs_up(self, g: G, c: RawArenaIndex, f: spec_fn(RawArenaIndex) -> bool, f2: spec_fn(RawArenaIndex) -> bool)
        requires self.lnk(g), self.nodes.contains_key(c), ArenaIndex::Internal(c) != self.root, self.cxs(f), self.n(c) > 0 || B::exact0(),
            f2(self.par(ArenaIndex::Internal(c))), forall|y: RawArenaIndex| #[trigger] f(y) && y != c ==> f2(y)
        ensures ({
            let a = ArenaIndex::Internal(c);
            let p = self.par(a);
            let k = plc(g, a) - (g.fst)(p);
            let t = self.setc(p, k, self.kc(a));
            &&& self.nodes.contains_key(p) && 0 <= k < self.n(p) && self.nodes[p].ch[k].arena == a && (g.ht)(p) == (g.ht)(c) + 1 && (g.ht)(p) < g.lv.len() && self.nodes[c].slot == k
            &&& t.cxs(f2) && self.sim(t) && t.kids(p) == self.kids(p).update(k, self.kc(a)) && p != c && B::cok(self.kc(a))
        })
    {
        let a = ArenaIndex::Internal(c);
        let p = self.par(a);
        self.lm_par(g, a);
        let k = plc(g, a) - (g.fst)(p);
        let t = self.setc(p, k, self.kc(a));
        reveal(TS::cxs);
        assert(B::cok(self.kc(a))) by {
            assert(self.cxs1(f, c));
            assert forall|k: int| 0 <= k < self.kids(c).len() implies B::cok(#[trigger] self.kids(c)[k]) by { assert(self.kids(c)[k] == self.nodes[c].ch[k].cache); }
            B::law_cok_sum(self.kids(c));
        }
        self.lm_setc(p, k, self.kc(a));
        assert forall|m: RawArenaIndex| #[trigger] t.cxs1(f2, m) by {
            assert(self.cxs1(f, m));
            if t.nodes.contains_key(m) {
                assert forall|j: int| 0 <= j < t.n(m) implies {
                    let e = #[trigger] t.nodes[m].ch[j];
                    B::cok(e.cache) && (e.arena is Internal && f2(e.arena.ix()) || e.cache == t.kc(e.arena))
                } by {
                    let e = self.nodes[m].ch[j];
                    self.lm_child(g, m, j);
                    assert(t.nodes[m].ch[j].arena == e.arena);
                    if m == p && j == k {
                    } else {
                        assert(t.nodes[m].ch[j] == e);
                        if e.arena == a { assert(m == p); assert(j == k); }
                        if e.arena is Internal { assert(e.arena == ArenaIndex::Internal(e.arena.ix())); }
                        if e.arena == ArenaIndex::Internal(p) { assert(f2(p)); }
                    }
                }
            }
        }
    }
    proof fn lm_cxs_none(self, g: G, f: spec_fn(RawArenaIndex) -> bool)
        requires self.lnk(g), self.cxs(f), forall|y: RawArenaIndex| self.nodes.contains_key(y) && y != self.rt() ==> !#[trigger] f(y)
        ensures self.caches_ok()
    {
        reveal(TS::cxs); reveal(TS::caches_ok);
        self.lm_root(g);
        assert forall|m: RawArenaIndex| #[trigger] self.cache_ok(m) by {
            assert(self.cxs1(f, m));
            if self.nodes.contains_key(m) {
                assert forall|k: int| 0 <= k < self.n(m) implies {
                    let c = #[trigger] self.nodes[m].ch[k];
                    B::cok(c.cache) && c.cache == self.kc(c.arena)
                } by { self.lm_child(g, m, k); let c = self.nodes[m].ch[k]; if c.arena is Internal { assert(c.arena == ArenaIndex::Internal(c.arena.ix())); assert(!f(c.arena.ix())); } }
            }
        }
    }
}
impl<B: BTreeTrait> BTree<B> {
    // the nodes whose entries may be wrong are all above the leaves at the two ends
    proof fn lm_ends_only(&self, o: &Self, i0: int, i1: int, p: Seq<Idx>, q: Seq<Idx>, y: RawArenaIndex)
        requires o.inv(), 0 <= i0 <= i1 <= o.order().len(), i0 < o.order().len(), self.drained_of(o, i0, i1, |y: RawArenaIndex| onp(p, q, y)),
            o.ts().path_ok(p), p.len() == o.g@.lv.len(), p.last().arena == ArenaIndex::Leaf(o.g@.lv[0][i0]),
            o.ts().path_ok(q), q.len() == o.g@.lv.len(), q.last().arena == ArenaIndex::Leaf(o.g@.lv[0][if i1 < o.order().len() { i1 } else { o.order().len() - 1 }]),
            self.ts().nodes.contains_key(y), y != self.ts().rt(), onp(p, q, y),
        ensures i0 > 0 && self.ts().anc(self.g@, o.g@.lv[0][i0 - 1], y) || i1 < o.order().len() && self.ts().anc(self.g@, o.g@.lv[0][i1], y)
    {
        let t = self.ts(); let k = self.g@; let u = o.ts(); let g = o.g@; let n = g.lv[0].len() as int; let L = g.lv.len() as int;
        t.lm_root(k); u.lm_root(g);
        t.lm_node(k, y);
        let j = (g.ht)(y);
        let x = t.lm_up_down(k, y);
        u.lm_at(g, 0, i0); u.lm_at(g, 0, n - 1);
        let e = g.lv[0][if i1 < n { i1 } else { n - 1 }];
        u.lm_at(g, 0, if i1 < n { i1 } else { n - 1 });
        if i0 > 0 { u.lm_at(g, 0, i0 - 1); }
        let s = g.lv[0][i0];
        // y is above x and above one of the two ends of the stretch
        assert(u.leaves.contains_key(x) && t.leaves[x] == u.leaves[x] && !(i0 <= (g.lpos)(x) < i1));
        u.lm_leaf(g, x);
        t.lm_up_same(k, u, x, j);
        let i = choose|i: int| 0 <= i < p.len() && (p[i].arena == ArenaIndex::Internal(y) || q[i].arena == ArenaIndex::Internal(y));
        assert(i < L - 1);
        u.lm_up_path(g, p, s, i); u.lm_up_path(g, q, e, i);
        lm_path_node(u, g, p, i); lm_path_node(u, g, q, i);
        assert(j == L - 1 - i);
        let z = if p[i].arena == ArenaIndex::Internal(y) { s } else { e };
        assert(u.up_at(z, j) == y && u.up_at(x, j) == y);
        if (g.lpos)(x) < i0 {
            let b = g.lv[0][i0 - 1];
            u.lm_up_mid(g, x, b, z, j);
            assert(t.leaves.contains_key(b));
            t.lm_up_same(k, u, b, j);
        } else {
            let a = g.lv[0][i1];
            if z == s { u.lm_up_mid(g, s, a, x, j); }
            assert(t.leaves.contains_key(a));
            t.lm_up_same(k, u, a, j);
        }
    }
//@ code src/lib.rs "BTree::recursive_update_cache" tags=C09,C05,C16
//@ rw fn recursive_update_cache( ==> fn vx_recache(
    fn vx_recache(
        &mut self,
        mut node_idx: ArenaIndex,
        can_use_diff: bool,
        cache_diff: Option<B::CacheDiff>,« Ghost(f): Ghost<spec_fn(RawArenaIndex) -> bool>»
    )«
        requires
            !can_use_diff, cache_diff is None, old(self).ts().lnk(old(self).g@), old(self).ts().has(node_idx), node_idx is Leaf, old(self).ts().cxs(f), old(self).leaf_nodes@[node_idx.ix()].elem.ok()
        ensures final(self).g == old(self).g, old(self).ts().sim(final(self).ts()), final(self).in_nodes.used() == old(self).in_nodes.used(),
            final(self).leaf_nodes == old(self).leaf_nodes, final(self).root == old(self).root,
            /*C05*/ final(self).ts().cxs(final(self).ts().less(final(self).g@, node_idx.ix(), f)), /*C05*/ final(self).ts().root_cache_ok(final(self).root_cache)»
    {
        «let ghost g = self.g@; let ghost i0 = node_idx; let ghost t0 = self.ts(); let ghost l = i0.ix();
        proof {
            t0.lm_root(g);
            t0.lm_sim_refl();
            t0.lm_par(g, i0); t0.lm_node(g, t0.par(i0)); t0.lm_up_at(g, l, 1);
            reveal(TS::cxs);
            assert(t0.cxs1(f, t0.par(i0)));
        }»
        if let ArenaIndex::Leaf(index) = node_idx {
            let leaf = self.leaf_nodes.get(index).unwrap();
            let cache = B::get_elem_cache(&leaf.elem);
            node_idx = leaf.parent();
            let node = self.get_internal_mut(node_idx);
            {
                «let ghost ch0 = node.children@; proof {
                    let t = old(self).ts();
                    assert(t.nodes[node_idx.ix()] == ns(*node));
                    assert forall|k: int| 0 <= k < ch0.len() implies (#[trigger] ch0[k]).arena is Leaf && (ch0[k].arena.ix() == index ==> k == (g.lpos)(index) - (g.fst)(node_idx.ix()))
                        by { t.lm_child(g, node_idx.ix(), k); assert(ch0[k] == t.nodes[node_idx.ix()].ch[k]); }
                    assert(ch0[(g.lpos)(index) - (g.fst)(node_idx.ix())].arena == i0);
                }»
                let vx_i = vx_position(&node.children, |x«: &Child<B>»| «-> (b: bool) requires x.arena is Leaf ensures b == (x.arena.ix() == index) {» x.arena.unwrap_leaf() == index «}»);
                node.children[vx_i].cache = cache;
                «proof {
                    assert(ns(*node).ch =~= t0.nodes[node_idx.ix()].ch);
                    assert(after_borrow(self).ts().nodes =~= t0.nodes);
                }»
            }
        }
        «let ghost rc = self.root_cache; let ghost mut c = node_idx;
        proof { assert(self.ts() == t0);
            let f2 = t0.rest(g, l, f, 1);
            assert forall|m: RawArenaIndex| #[trigger] t0.cxs1(f2, m) by {
                assert(t0.cxs1(f, m));
                if t0.nodes.contains_key(m) {
                    assert forall|k: int| 0 <= k < t0.n(m) && (#[trigger] t0.nodes[m].ch[k]).arena is Internal && f(t0.nodes[m].ch[k].arena.ix()) implies f2(t0.nodes[m].ch[k].arena.ix()) by {
                        t0.lm_child(g, m, k); t0.lm_node(g, t0.nodes[m].ch[k].arena.ix());
                    }
                }
            }
            reveal(TS::cxs);
        }»
        if can_use_diff {
            if let Some(diff) = cache_diff {
                return self.recursive_update_cache_with_diff(node_idx, diff);
            }
        }
        let mut this_idx = node_idx;
        let mut node = self.get_internal_mut(node_idx);
        let mut this_arr = node.parent_slot;
        «proof { assert(after_borrow(self).ts().nodes =~= t0.nodes); assert(after_borrow(self).ts() == t0); }»
        if can_use_diff {
            if node.parent.is_some() {
                let parent_idx = node.parent.unwrap();
                let (parent, this) = self.get2_mut(parent_idx, this_idx);
                let diff =
                    this.calc_cache(&mut parent.children[this_arr as usize].cache, cache_diff);
                return self.recursive_update_cache_with_diff(parent_idx, diff);
            }
        } else {
            while node.parent.is_some()
                «invariant
                    t0.lnk(g), t0.sim(after_borrow(self).ts()), after_borrow(self).g@ == g, after_borrow(self).root_cache == rc,
                    after_borrow(self).in_nodes.used() == old(self).in_nodes.used(), after_borrow(self).leaf_nodes == old(self).leaf_nodes,
                    after_borrow(self).root == t0.root, this_idx == c, t0.leaves.contains_key(l),
                    c is Internal, after_borrow(self).in_nodes@.contains_key(c.ix()), *final(node) == after_borrow(self).in_nodes@[c.ix()], *final(node) == *node,
                    after_borrow(self).ts().cxs(t0.rest(g, l, f, (g.ht)(c.ix()))), this_arr == node.parent_slot,
                    1 <= (g.ht)(c.ix()) < g.lv.len(), c.ix() == t0.up_at(l, (g.ht)(c.ix())),
                decreases g.lv.len() - (g.ht)(c.ix())»
            {
                let parent_idx = node.parent.unwrap();
                «let ghost t = self.ts(); let ghost p = t.par(c); let ghost k = plc(g, c) - (g.fst)(p); let ghost h = (g.ht)(c.ix());
                proof {
                    t0.lm_sim(t, g); t.lm_root(g); t.lm_node(g, c.ix());
                    t.lm_par(g, c); t.lm_node(g, p);
                    t0.lm_up_at(g, l, h); t0.lm_up_at(g, l, h + 1); t0.lm_sim1(t, c.ix());
                    assert(t.n(c.ix()) > 0);
                    t.lm_cxs_up(g, c.ix(), t0.rest(g, l, f, h), t0.rest(g, l, f, h + 1));
                    reveal(TS::cxs); assert(t.cxs1(t0.rest(g, l, f, h), c.ix()));
                }»
                let (parent, this) = self.get2_mut(parent_idx, this_idx);
                this.calc_cache(&mut parent.children[this_arr as usize].cache, None);
                this_idx = parent_idx;
                this_arr = parent.parent_slot;
                node = parent;
                «proof {
                    let t2 = t.setc(p, k, t.kc(c));
                    assert(cch(this.children@) == t.kids(c.ix()));
                    assert(ns(*node).ch =~= t2.nodes[p].ch);
                    assert(after_borrow(self).ts().nodes =~= t2.nodes);
                    assert(after_borrow(self).ts() == t2);
                    t0.lm_sim_trans(t, t2);
                    c = ArenaIndex::Internal(p);
                }»
            }
        }
        «proof {
            let t = self.ts();
            t0.lm_sim(t, g); t.lm_root(g); t.lm_node(g, c.ix());
            let f1 = t0.rest(g, l, f, (g.ht)(c.ix())); let f2 = t0.less(g, l, f);
            reveal(TS::cxs); assert(t.cxs1(f1, t.rt())); assert(t.nodes[t.rt()].ch == self.in_nodes@[t.rt()].children@);
            assert forall|m: RawArenaIndex| #[trigger] t.cxs1(f2, m) by {
                assert(t.cxs1(f1, m));
                if t.nodes.contains_key(m) {
                    assert forall|k: int| 0 <= k < t.n(m) && (#[trigger] t.nodes[m].ch[k]).arena is Internal && f1(t.nodes[m].ch[k].arena.ix()) implies f2(t.nodes[m].ch[k].arena.ix()) by {
                        t.lm_child(g, m, k); t.lm_node(g, m); t.lm_node(g, t.nodes[m].ch[k].arena.ix());
                    }
                }
            }
            t0.lm_less_sim(t, g, l, f);
        } let ghost t9 = self.ts();»
        let mut root_cache = vx_take(&mut self.root_cache);
        let root = self.root_mut();
        root.calc_cache(
            &mut root_cache,
            if can_use_diff { cache_diff } else { None },
        );
        self.root_cache = root_cache;
        «proof { assert(self.ts().nodes =~= t9.nodes); assert(self.ts() == t9); }»
    }
//@ end
}
impl<B: BTreeTrait> BTree<B> {
    // the nodes of path p, above height h, are there
    spec fn along(&self, p: Seq<Idx>, i: int) -> bool {
        forall|j: int| i <= j < p.len() - 1 ==> (#[trigger] p[j]).arena is Internal && self.in_nodes@.contains_key(p[j].arena.ix()) && (self.g@.ht)(p[j].arena.ix()) == self.g@.lv.len() - 1 - j
    }
    // every node of a tree that is well has a child, or there is but the root
    proof fn lm_mend_any(&self, m: RawArenaIndex)
        requires self.inv(), self.in_nodes@.contains_key(m), m != self.ts().rt()
        ensures self.mend(m), self.ts().n(m) > 0
    { self.ts().lm_sized_any(self.g@, m); self.ts().lm_size(self.g@, m); }
}
//@ code src/iter.rs "fn handle_lack_on_path_to_leaf" tags=C09,C04,C16
«#[verifier::exec_allows_no_decreases_clause]»
fn handle_lack_on_path_to_leaf<B: BTreeTrait>(tree: &mut BTree<B>, leaf: ArenaIndex)«
    requires old(tree).inv(), old(tree).ts().has(leaf), leaf is Leaf, old(tree).g@.lv.len() <= 16
    ensures /*C09 C04 C05*/ final(tree).settled(old(tree)), final(tree).g@.lv.len() == old(tree).g@.lv.len()»
{
    «proof { tree.ts().lm_same_self(); }»
    let mut last_lack_count = 0;
    let mut lack_count;
    loop
        «invariant tree.settled(old(tree)), old(tree).ts().has(leaf), leaf is Leaf, tree.g@.lv.len() == old(tree).g@.lv.len(), tree.g@.lv.len() <= 16»
    {
        lack_count = 0;
        «proof { tree.ts().lm_same_leaf(old(tree).ts(), leaf.ix()); }»
        let path = tree.get_path(leaf);
        «let ghost u = *tree; proof {
            u.ts().lm_root(u.g@); u.ts().lm_leaf(u.g@, leaf.ix());
            assert forall|j: int| 0 <= j < path@.len() - 1 implies (#[trigger] path@[j]).arena is Internal && u.in_nodes@.contains_key(path@[j].arena.ix()) && (u.g@.ht)(path@[j].arena.ix()) == u.g@.lv.len() - 1 - j
                by { lm_path_node(u.ts(), u.g@, path@, j); }
        }»
        for i in 1..path.len() - 1
            «invariant tree.settled(old(tree)), tree.g@.lv.len() == old(tree).g@.lv.len(), path@.len() == tree.g@.lv.len(), path@.len() <= 16, tree.along(path@, i as int), lack_count <= i,»
        {
            «let ghost u = *tree; let ghost m = path@[i as int].arena.ix();
            proof { u.ts().lm_root(u.g@); u.ts().lm_node(u.g@, m); u.lm_mend_any(m); u.lm_mends(m); u.ts().lm_same_self(); }»
            let Some(node) = tree.in_nodes.get(path[i].arena.unwrap_internal()) else {
                unreachable!()
            };
            let is_lack = node.is_lack();
            if is_lack {
                let lack_info = tree.handle_lack_single_layer(path[i].arena);
                «proof {
                    tree.lm_patched(&u, m);
                    tree.lm_settled(&u, old(tree));
                    reveal(TS::below);
                    assert forall|j: int| i < j < path@.len() - 1 implies (#[trigger] path@[j]).arena is Internal && tree.in_nodes@.contains_key(path@[j].arena.ix()) && (tree.g@.ht)(path@[j].arena.ix()) == tree.g@.lv.len() - 1 - j
                        by { assert(tree.ts().nodes.contains_key(path@[j].arena.ix())); }
                }»
                if lack_info.parent_lack.is_some() {
                    lack_count += 1;
                }
            }
        }
        // parent may be lack after some children is merged
        if lack_count == 0 || lack_count == last_lack_count {
            break;
        }

        last_lack_count = lack_count;
    }
}
//@ end
//@ code src/iter.rs "fn seal" tags=C09,C04,C16
fn seal<B: BTreeTrait>(tree: &mut BTree<B>, leaf: ArenaIndex)«
    requires old(tree).inv(), old(tree).ts().has(leaf), leaf is Leaf, old(tree).g@.lv.len() <= 16
    ensures /*C09 C04 C05*/ final(tree).settled(old(tree))»
{
    handle_lack_on_path_to_leaf(tree, leaf);
    «let ghost u = *tree; proof { tree.ts().lm_same_leaf(old(tree).ts(), leaf.ix()); }»
    if let Some(sibling) = tree.next_same_level_in_node(leaf) {
        «proof { tree.ts().lm_root(tree.g@); tree.ts().lm_leaf(tree.g@, leaf.ix()); tree.ts().lm_at(tree.g@, 0, plc(tree.g@, leaf) + 1); }»
        handle_lack_on_path_to_leaf(tree, sibling);
        «proof { tree.lm_settled(&u, old(tree)); }»
    }
    «let ghost u = *tree; proof { u.ts().lm_sized_any(u.g@, u.ts().rt()); u.ts().lm_root(u.g@); }»
    tree.try_reduce_levels();
    «proof { tree.lm_settled(&u, old(tree)); }»
}
//@ end
impl<B: BTreeTrait> BTree<B> {
    // this tree is o without the leaves from i0 to i1
    spec fn drained_to(&self, o: &Self, i0: int, i1: int) -> bool {
        &&& self.inv() && self.order() == chp(o.order(), 0, i0, i1) && self.uses(o) && self.root == o.root
        &&& forall|l: RawArenaIndex| #[trigger] self.leaf_nodes@.contains_key(l) == (o.leaf_nodes@.contains_key(l) && !(i0 <= (o.g@.lpos)(l) < i1))
        &&& forall|l: RawArenaIndex| #[trigger] self.leaf_nodes@.contains_key(l) ==> self.ts().same_leaf(o.ts(), l)
        &&& self.all() == o.all().subrange(0, o.lead(i0)) + o.all().subrange(o.lead(i1), o.all().len() as int)
    }
    proof fn lm_drained_to(&self, o: &Self, i0: int, i1: int)
        requires o.inv(), self.inv(), 0 <= i0 <= i1 <= o.order().len(), self.order() == chp(o.order(), 0, i0, i1), self.uses(o), self.root == o.root, self.ts().same_leaves(o.ts().thin(o.g@, i0, i1))
        ensures self.drained_to(o, i0, i1)
    {
        let u = o.ts().thin(o.g@, i0, i1); let n = o.order().len() as int;
        self.lm_at_o(); o.lm_at_o();
        o.ts().lm_root(o.g@);
        assert forall|l: RawArenaIndex| #[trigger] self.leaf_nodes@.contains_key(l) == (o.leaf_nodes@.contains_key(l) && !(i0 <= (o.g@.lpos)(l) < i1)) by {
            self.ts().lm_same_leaf(u, l); if o.leaf_nodes@.contains_key(l) { o.ts().lm_leaf(o.g@, l); }
        }
        assert forall|l: RawArenaIndex| #[trigger] self.leaf_nodes@.contains_key(l) implies self.ts().same_leaf(o.ts(), l) by { self.ts().lm_same_leaf(u, l); }
        let a = o.items().subrange(0, i0); let b = o.items().subrange(i0, i1); let c = o.items().subrange(i1, n);
        assert forall|i: int| 0 <= i < self.order().len() implies #[trigger] self.items()[i] == (a + c)[i] by {
            let l = self.order()[i];
            self.ts().lm_root(self.g@);
            self.ts().lm_at(self.g@, 0, i);
            assert(self.leaf_nodes@.contains_key(l));
            assert(self.ts().same_leaf(o.ts(), l));
        }
        assert(self.items() =~= a + c);
        lm_flat_cat(a, c);
        assert(o.items() =~= a + (b + c));
        lm_flat_cat(a, b + c); lm_flat_cat(b, c);
        assert(o.items().subrange(0, i1) =~= a + b);
        lm_flat_cat(a, b);
        assert(o.all().subrange(0, o.lead(i0)) =~= flat(a));
        assert(o.all().subrange(o.lead(i1), o.all().len() as int) =~= flat(c));
    }
}
impl<B: BTreeTrait> TS<B> {
    proof fn lm_ancs(self, o: TS<B>, g: G, l: RawArenaIndex)
        requires self.sim(o), self.lnk(g), self.leaves.contains_key(l)
        ensures forall|y: RawArenaIndex| o.nodes.contains_key(y) ==> #[trigger] o.anc(g, l, y) == self.anc(g, l, y)
    {
        assert forall|y: RawArenaIndex| o.nodes.contains_key(y) implies #[trigger] o.anc(g, l, y) == self.anc(g, l, y) by {
            self.lm_sim1(o, y); self.lm_node(g, y); self.lm_root(g);
            self.lm_up_sim(o, g, l, (g.ht)(y));
        }
    }
}
impl<B: BTreeTrait> BTree<B> {
    // where all the summaries above the two ends have been set right
    proof fn lm_dropped(&self, b: &Self, o: &Self, i0: int, i1: int, p: Seq<Idx>, q: Seq<Idx>, f: spec_fn(RawArenaIndex) -> bool)
        requires o.inv(), 0 <= i0 <= i1 <= o.order().len(), i0 < o.order().len(), b.drained_of(o, i0, i1, |y: RawArenaIndex| onp(p, q, y)),
            o.ts().path_ok(p), p.len() == o.g@.lv.len(), p.last().arena == ArenaIndex::Leaf(o.g@.lv[0][i0]),
            o.ts().path_ok(q), q.len() == o.g@.lv.len(), q.last().arena == ArenaIndex::Leaf(o.g@.lv[0][if i1 < o.order().len() { i1 } else { o.order().len() - 1 }]),
            b.ts().sim(self.ts()), self.g == b.g, self.ts().cxs(f),
            forall|y: RawArenaIndex| self.ts().nodes.contains_key(y) && #[trigger] f(y) ==> onp(p, q, y)
                && !(i0 > 0 && b.ts().anc(b.g@, o.g@.lv[0][i0 - 1], y)) && !(i1 < o.order().len() && b.ts().anc(b.g@, o.g@.lv[0][i1], y))
        ensures self.ts().caches_ok(), self.ts().lnk(self.g@), self.ts().sized_but(self.g@, self.ts().rt()), self.ts().not_full(), self.ts().elems_ok(),
            self.ts().same_leaves(o.ts().thin(o.g@, i0, i1)), self.ts().nodes.contains_key(self.ts().rt()),
            self.ts().root_cache_ok(self.root_cache) ==> self.mend(self.ts().rt()) && ((i0 > 0 || i1 < o.order().len()) ==> self.inv()),
    {
        let t = self.ts(); let u = b.ts(); let k = self.g@;
        u.lm_root(k);
        u.lm_sim1(t, u.rt());
        u.lm_sim(t, k);
        u.lm_sim_but(t, k, u.rt());
        t.lm_root(k);
        assert forall|y: RawArenaIndex| t.nodes.contains_key(y) && y != t.rt() implies !#[trigger] f(y) by {
            u.lm_sim1(t, y);
            if f(y) { b.lm_ends_only(o, i0, i1, p, q, y); }
        }
        t.lm_cxs_none(k, f);
        assert(t.leaves == o.ts().thin(o.g@, i0, i1).leaves);
        reveal(TS::elems_ok);
        assert forall|l: RawArenaIndex| #[trigger] t.elem_ok(l) by { assert(o.ts().elem_ok(l)); }
        assert(u.elems_ok()) by { assert forall|l: RawArenaIndex| #[trigger] u.elem_ok(l) by { assert(t.elem_ok(l)); } }
        reveal(TS::same_leaves);
        assert forall|l: RawArenaIndex| #[trigger] t.same_leaf(o.ts().thin(o.g@, i0, i1), l) by {}
        if i0 > 0 || i1 < o.order().len() {
            assert(k.lv[0].len() > 0);
            t.lm_at(k, 0, 0);
            t.lm_up_at(k, k.lv[0][0], k.lv.len() - 1);
            assert(t.n(t.rt()) > 0);
            t.lm_sized(k, t.rt());
        }
    }
}
impl<'a, B: BTreeTrait> Drain<'a, B> {
//@ code src/iter.rs "Drop for Drain::drop" tags=C09,C04,C05,C07,C16
//@ rw let mut level = start_path.len() - 2; $$u_body if let Some(after) = ==> self.tree.vx_drop1(start_path, end_path); if let Some(after) =
//@ rw self.tree.recursive_update_cache ==> self.tree.vx_recache
    fn drop(&mut self)«
        requires old(self).ok()
        ensures old(self).store is None ==> *final(final(self).tree) == *final(old(self).tree) && final(self).tree.inv() && *final(self).tree == old(self).o@,
            old(self).store is Some ==> *final(final(self).tree) == *final(old(self).tree) && /*C09 C04 C05 C07*/ final(self).tree.drained_to(&old(self).o@, old(self).i0@, old(self).i1@)»
    {
        self.ensure_finished();
        «let ghost i0 = self.i0@; let ghost i1 = self.i1@; let ghost ob = self.o@; let ghost o = ob.ts(); let ghost g = ob.g@; let ghost n = ob.order().len() as int; let ghost st0 = self.store;
        proof { ob.ts().lm_root(g); }»
        let Some(store) = self.store.take() else {
            // the range was empty, nothing to clean up
            return;
        };
        let TempStore {
            start_path,
            end_path,
            leaf_before_drain_range,
            leaf_after_drain_range,
        } = *store;
        «let ghost p = start_path@; let ghost q = end_path@; let ghost f0 = |y: RawArenaIndex| onp(p, q, y);
        let ghost lb = g.lv[0][i0 - 1]; let ghost la = g.lv[0][i1];»
        self.tree.vx_drop1(start_path, end_path«, Ghost(ob), Ghost(i0), Ghost(i1)»);
        «let ghost b = *self.tree; let ghost t1 = b.ts(); let ghost k = b.g@;
        let ghost mut f = f0;
        proof {
            t1.lm_sim_refl();
            if i1 < n { o.lm_at(g, 0, i1); o.lm_elems_ok(la); assert(t1.leaves.contains_key(la)); assert(b.leaf_nodes@[la].elem.ok()) by { assert(t1.leaves[la] == o.leaves[la]); } }
            if i0 > 0 { o.lm_at(g, 0, i0 - 1); o.lm_elems_ok(lb); assert(t1.leaves.contains_key(lb)); assert(b.leaf_nodes@[lb].elem.ok()) by { assert(t1.leaves[lb] == o.leaves[lb]); } }
        }»

        if let Some(after) = leaf_after_drain_range {
            self.tree.vx_recache(
                after,
                leaf_after_drain_range == leaf_before_drain_range,
                None,« Ghost(f)»
            );
            «proof { f = self.tree.ts().less(k, la, f); t1.lm_ancs(self.tree.ts(), k, la); t1.lm_sim(self.tree.ts(), k); t1.lm_sim1(self.tree.ts(), la); }»
        }

        // otherwise the path is invalid (e.g. the tree is empty)
        if let Some(before) = leaf_before_drain_range {
            «let ghost b2 = *self.tree; let ghost t2 = self.tree.ts(); proof { t1.lm_sim(t2, k); t1.lm_sim1(t2, lb); }»
            if leaf_before_drain_range == leaf_after_drain_range {
                «proof { assert(false); }»
                self.tree.vx_recache(before, B::USE_DIFF, None«, Ghost(f)»);
            } else {
                self.tree.vx_recache(before, false, None«, Ghost(f)»);
                «let ghost t3 = self.tree.ts(); proof { t1.lm_sim_trans(t2, t3); f = t3.less(k, lb, f); t1.lm_ancs(t3, k, lb); t1.lm_sim(t3, k); t1.lm_sim1(t3, lb);
                    assert forall|y: RawArenaIndex| t3.nodes.contains_key(y) && #[trigger] f(y) implies onp(p, q, y) && !t1.anc(k, lb, y) by { t1.lm_sim1(t3, y); assert(!t3.anc(k, lb, y)); }
                }»
                if let Some(after) = leaf_after_drain_range {
                    «proof { t1.lm_sim1(t3, la); }»
                    self.tree.vx_recache(after, false, None«, Ghost(f)»);
                    «let ghost t4 = self.tree.ts(); proof { t1.lm_sim_trans(t3, t4); let ff = f; f = t4.less(k, la, f); t1.lm_ancs(t4, k, la);
                        assert forall|y: RawArenaIndex| t4.nodes.contains_key(y) && #[trigger] f(y) implies onp(p, q, y) && !t1.anc(k, lb, y) && !t1.anc(k, la, y) by { t1.lm_sim1(t4, y); t1.lm_sim1(t3, y); assert(!t4.anc(k, la, y)); assert(ff(y)); }
                    }»
                }
            }
            «let ghost b5 = *self.tree;
            proof {
                assert forall|y: RawArenaIndex| b5.ts().nodes.contains_key(y) && #[trigger] f(y) implies onp(p, q, y)
                    && !(i0 > 0 && t1.anc(k, lb, y)) && !(i1 < n && t1.anc(k, la, y)) by { t1.lm_sim1(t2, y); t1.lm_sim1(b5.ts(), y); }
                b5.lm_dropped(&b, &ob, i0, i1, p, q, f); t1.lm_sim1(b5.ts(), lb);
            }»
            seal(self.tree, before);
            «proof { self.tree.ts().lm_same_trans(b5.ts(), o.thin(g, i0, i1)); self.tree.lm_drained_to(&ob, i0, i1); }»
        } else {
            «let ghost b5 = *self.tree;
            proof {
                assert forall|y: RawArenaIndex| b5.ts().nodes.contains_key(y) && #[trigger] f(y) implies onp(p, q, y)
                    && !(i0 > 0 && t1.anc(k, lb, y)) && !(i1 < n && t1.anc(k, la, y)) by { }
                b5.lm_dropped(&b, &ob, i0, i1, p, q, f);
            }»
            self.tree.update_root_cache();
            «let ghost b6 = *self.tree; proof { assert(b6.ts() == b5.ts()); b6.lm_dropped(&b, &ob, i0, i1, p, q, f); }»
            self.tree.try_reduce_levels();
            «proof { self.tree.ts().lm_same_trans(b6.ts(), o.thin(g, i0, i1)); self.tree.lm_drained_to(&ob, i0, i1); }»
        }
    }
//@ end
}
