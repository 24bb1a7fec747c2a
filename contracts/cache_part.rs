// Keeping the cached summaries right. (C05)
//@ rw $p_x.iter_mut().find($c).unwrap().cache = $v; ==> { let vx_i = vx_position(&$p_x, $c); $p_x[vx_i].cache = $v; }
//@ rw std::mem::take ==> vx_take
impl<B: BTreeTrait> TS<B> {
    // o is this tree but for the stored summaries
    spec fn sim1(self, o: TS<B>, m: RawArenaIndex) -> bool {
        &&& self.nodes.contains_key(m) == o.nodes.contains_key(m)
        &&& self.nodes.contains_key(m) ==> self.nodes[m].par == o.nodes[m].par && self.nodes[m].slot == o.nodes[m].slot && self.n(m) == o.n(m)
            && forall|k: int| 0 <= k < self.n(m) ==> (#[trigger] self.nodes[m].ch[k]).arena == o.nodes[m].ch[k].arena
    }
    #[verifier::opaque]
    spec fn sim(self, o: TS<B>) -> bool {
        self.root == o.root && self.leaves == o.leaves && forall|m: RawArenaIndex| #[trigger] self.sim1(o, m)
    }
    proof fn lm_sim_refl(self)
        ensures self.sim(self)
    { reveal(TS::sim); assert forall|m: RawArenaIndex| #[trigger] self.sim1(self, m) by {} }
    proof fn lm_sim_trans(self, o: TS<B>, p: TS<B>)
        requires self.sim(o), o.sim(p)
        ensures self.sim(p)
    {
        reveal(TS::sim);
        assert forall|m: RawArenaIndex| #[trigger] self.sim1(p, m) by {
            assert(self.sim1(o, m)); assert(o.sim1(p, m));
            if self.nodes.contains_key(m) {
                assert forall|k: int| 0 <= k < self.n(m) implies (#[trigger] self.nodes[m].ch[k]).arena == p.nodes[m].ch[k].arena by {
                    assert(self.nodes[m].ch[k].arena == o.nodes[m].ch[k].arena);
                }
            }
        }
    }
    proof fn lm_sim_fat(self, o: TS<B>, g: G, m: RawArenaIndex)
        requires self.sim(o), self.nodes.contains_key(m)
        ensures self.fat(g) ==> o.fat(g), self.fat_but(g, m) ==> o.fat_but(g, m)
    {
        reveal(TS::fat); reveal(TS::fat_but);
        self.lm_sim1(o, m);
        if self.fat(g) { assert forall|y: RawArenaIndex| #[trigger] o.fat_ok(g, y) by { self.lm_sim1(o, y); assert(self.fat_ok(g, y)); } }
        if self.fat_but(g, m) {
            assert forall|y: RawArenaIndex| y != m implies #[trigger] o.fat_ok(g, y) by { self.lm_sim1(o, y); assert(self.fat_ok(g, y)); }
        }
    }
    proof fn lm_sim1(self, o: TS<B>, m: RawArenaIndex)
        requires self.sim(o)
        ensures self.sim1(o, m), self.root == o.root, self.leaves == o.leaves
    { reveal(TS::sim); assert(self.sim1(o, m)); }
    // such a tree has the same shape
    proof fn lm_sim(self, o: TS<B>, g: G)
        requires self.sim(o), self.lnk(g)
        ensures o.lnk(g), self.sized(g) ==> o.sized(g), self.not_full() ==> o.not_full(), self.elems_ok() ==> o.elems_ok()
    {
        reveal(TS::sim); reveal(TS::lnk); reveal(TS::sized); reveal(TS::not_full); reveal(TS::elems_ok);
        assert forall|m: RawArenaIndex| #[trigger] o.node_ok(g, m) by {
            assert(self.node_ok(g, m)); assert(self.sim1(o, m));
            if o.nodes.contains_key(m) && m != o.rt() {
                let p = o.nodes[m].par->0.ix();
                assert(self.sim1(o, p));
            }
            if o.nodes.contains_key(m) {
                assert forall|k: int| 0 <= k < o.n(m) implies (#[trigger] o.nodes[m].ch[k]).arena == aix(g, (g.ht)(m) - 1, (g.fst)(m) + k) by {
                    assert(self.nodes[m].ch[k].arena == o.nodes[m].ch[k].arena);
                }
            }
        }
        assert forall|l: RawArenaIndex| #[trigger] o.leaf_ok(g, l) by {
            assert(self.leaf_ok(g, l));
            if o.leaves.contains_key(l) { assert(self.sim1(o, o.leaves[l].parent)); }
        }
        assert forall|h: int, i: int| #[trigger] o.lvl_ok(g, h, i) by {
            assert(self.lvl_ok(g, h, i));
            if 1 <= h < g.lv.len() && 0 <= i < g.lv[h].len() { assert(self.sim1(o, g.lv[h][i])); }
        }
        assert forall|i: int| #[trigger] o.lfl_ok(g, i) by { assert(self.lfl_ok(g, i)); }
        if self.sized(g) {
            assert forall|m: RawArenaIndex| #[trigger] o.size_ok(g, m) by { assert(self.size_ok(g, m)); assert(self.sim1(o, m)); }
        }
        if self.not_full() {
            assert forall|m: RawArenaIndex| #[trigger] o.roomy(m) by { assert(self.roomy(m)); assert(self.sim1(o, m)); }
        }
        if self.elems_ok() {
            assert forall|l: RawArenaIndex| #[trigger] o.elem_ok(l) by { assert(self.elem_ok(l)); }
        }
    }

    // every entry is right, but perhaps the one for a
    spec fn cx1(self, a: ArenaIndex, m: RawArenaIndex) -> bool {
        self.nodes.contains_key(m) ==> forall|k: int| 0 <= k < self.n(m) ==> {
            let c = #[trigger] self.nodes[m].ch[k];
            B::cok(c.cache) && (c.arena != a ==> c.cache == self.kc(c.arena))
        }
    }
    #[verifier::opaque]
    spec fn cx(self, a: ArenaIndex) -> bool { forall|m: RawArenaIndex| #[trigger] self.cx1(a, m) }
    // the summary stored for a
    spec fn ent(self, g: G, rc: B::Cache, a: ArenaIndex) -> B::Cache {
        if a == self.root { rc } else { self.nodes[self.par(a)].ch[plc(g, a) - (g.fst)(self.par(a))].cache }
    }
    spec fn setc(self, m: RawArenaIndex, k: int, c: B::Cache) -> TS<B> {
        let x = self.nodes[m];
        TS { nodes: self.nodes.insert(m, NodeS { ch: x.ch.update(k, Child { arena: x.ch[k].arena, cache: c }), ..x }), ..self }
    }
    proof fn lm_setc(self, m: RawArenaIndex, k: int, c: B::Cache)
        requires self.nodes.contains_key(m), 0 <= k < self.n(m)
        ensures ({
            let t = self.setc(m, k, c);
            self.sim(t) && t.kids(m) == self.kids(m).update(k, c)
                && (forall|x: ArenaIndex| x != ArenaIndex::Internal(m) ==> #[trigger] t.kc(x) == self.kc(x))
        })
    {
        let t = self.setc(m, k, c);
        reveal(TS::sim);
        assert forall|x: RawArenaIndex| #[trigger] self.sim1(t, x) by {}
        assert(t.kids(m) =~= self.kids(m).update(k, c));
        assert forall|x: ArenaIndex| x != ArenaIndex::Internal(m) implies #[trigger] t.kc(x) == self.kc(x) by {
            match x { ArenaIndex::Leaf(l) => {}, ArenaIndex::Internal(n) => { assert(t.nodes[n] == self.nodes[n]); } }
        }
    }
    // the true summary of a node whose entries are right
    proof fn lm_kc_ok(self, g: G, a: ArenaIndex)
        requires self.lnk(g), self.has(a), self.cx(a), a is Leaf ==> self.leaves[a.ix()].elem.ok(), a is Internal ==> self.n(a.ix()) > 0 || B::exact0()
        ensures B::cok(self.kc(a))
    {
        match a {
            ArenaIndex::Leaf(l) => { B::law_cok(self.leaves[l].elem); }
            ArenaIndex::Internal(m) => {
                reveal(TS::cx);
                assert(self.cx1(a, m));
                assert forall|k: int| 0 <= k < self.kids(m).len() implies B::cok(#[trigger] self.kids(m)[k]) by { assert(self.kids(m)[k] == self.nodes[m].ch[k].cache); }
                B::law_cok_sum(self.kids(m));
            }
        }
    }
    // the entry for a has been set right: the only one that may be wrong is that of its parent
    proof fn lm_up(self, g: G, a: ArenaIndex)
        requires self.lnk(g), self.has(a), a != self.root, self.cx(a), B::cok(self.kc(a))
        ensures ({
            let p = self.par(a);
            let k = plc(g, a) - (g.fst)(p);
            let t = self.setc(p, k, self.kc(a));
            &&& self.nodes.contains_key(p) && 0 <= k < self.n(p) && self.nodes[p].ch[k].arena == a && (g.ht)(p) == hgt(g, a) + 1 && (g.ht)(p) < g.lv.len()
            &&& t.cx(ArenaIndex::Internal(p)) && self.sim(t) && t.kids(p) == self.kids(p).update(k, self.kc(a))
        })
    {
        let p = self.par(a);
        self.lm_par(g, a);
        let k = plc(g, a) - (g.fst)(p);
        let t = self.setc(p, k, self.kc(a));
        self.lm_setc(p, k, self.kc(a));
        reveal(TS::cx);
        assert forall|m: RawArenaIndex| #[trigger] t.cx1(ArenaIndex::Internal(p), m) by {
            assert(self.cx1(a, m));
            if t.nodes.contains_key(m) {
                assert forall|j: int| 0 <= j < t.n(m) implies {
                    let c = #[trigger] t.nodes[m].ch[j];
                    B::cok(c.cache) && (c.arena != ArenaIndex::Internal(p) ==> c.cache == t.kc(c.arena))
                } by {
                    let c = self.nodes[m].ch[j];
                    self.lm_child(g, m, j);
                    assert(t.nodes[m].ch[j].arena == c.arena);
                    if m == p && j == k {
                    } else {
                        assert(t.nodes[m].ch[j] == c);
                        if c.arena == a { assert(m == p); assert(j == k); }
                    }
                }
            }
        }
    }
    proof fn lm_cx_root(self, g: G)
        requires self.lnk(g), self.cx(self.root)
        ensures self.caches_ok()
    {
        reveal(TS::cx); reveal(TS::caches_ok);
        assert forall|m: RawArenaIndex| #[trigger] self.cache_ok(m) by {
            assert(self.cx1(self.root, m));
            if self.nodes.contains_key(m) {
                assert forall|k: int| 0 <= k < self.n(m) implies {
                    let c = #[trigger] self.nodes[m].ch[k];
                    B::cok(c.cache) && c.cache == self.kc(c.arena)
                } by { self.lm_child(g, m, k); }
            }
        }
    }
    proof fn lm_cx_any(self, a: ArenaIndex)
        requires self.caches_ok()
        ensures self.cx(a)
    {
        reveal(TS::cx); reveal(TS::caches_ok);
        assert forall|m: RawArenaIndex| #[trigger] self.cx1(a, m) by { assert(self.cache_ok(m)); }
    }
    // all entries are right but that of a, which the difference d would correct
    spec fn pend(self, g: G, rc: B::Cache, a: ArenaIndex, d: B::CacheDiff) -> bool {
        &&& self.cx(a)
        &&& B::app(self.ent(g, rc, a), d) == self.kc(a)
        &&& a != self.root ==> rc == self.kc(self.root)
    }
    proof fn lm_pend_up(self, g: G, rc: B::Cache, a: ArenaIndex, d: B::CacheDiff)
        requires self.lnk(g), self.has(a), a is Leaf ==> self.leaves[a.ix()].elem.ok(), a != self.root, self.pend(g, rc, a, d), B::USE_DIFF
        ensures ({
            let p = self.par(a);
            let k = plc(g, a) - (g.fst)(p);
            let t = self.setc(p, k, B::app(self.nodes[p].ch[k].cache, d));
            &&& self.nodes.contains_key(p) && 0 <= k < self.n(p) && self.nodes[p].ch[k].arena == a && (g.ht)(p) == hgt(g, a) + 1 && (g.ht)(p) < g.lv.len()
            &&& t.pend(g, rc, ArenaIndex::Internal(p), d) && self.sim(t)
        })
    {
        let p = self.par(a);
        let pa = ArenaIndex::Internal(p);
        B::law_c0();
        self.lm_kc_ok(g, a);
        self.lm_up(g, a);
        let k = plc(g, a) - (g.fst)(p);
        let t = self.setc(p, k, self.kc(a));
        B::law_app(self.kids(p), k, d);
        assert(self.kids(p)[k] == self.nodes[p].ch[k].cache);
        assert(t.kc(pa) == B::app(self.kc(pa), d));
        self.lm_root(g);
        self.lm_setc(p, k, self.kc(a));
        if pa != self.root {
            self.lm_par(g, pa);
            reveal(TS::cx);
            let q = self.par(pa);
            assert(self.cx1(a, q));
            let j = plc(g, pa) - (g.fst)(q);
            assert(self.nodes[q].ch[j].cache == self.kc(pa));
            assert(t.nodes[q].ch[j].cache == self.nodes[q].ch[j].cache);
        }
    }
    // a leaf's entry set to its summary
    spec fn fix(self, g: G, a: ArenaIndex) -> TS<B> {
        match a {
            ArenaIndex::Leaf(l) => { let p = self.leaves[l].parent; self.setc(p, (g.lpos)(l) - (g.fst)(p), B::ec(self.leaves[l].elem)) }
            ArenaIndex::Internal(m) => self,
        }
    }
    spec fn up(self, a: ArenaIndex) -> ArenaIndex { if a is Leaf { ArenaIndex::Internal(self.par(a)) } else { a } }
}
impl<B: BTreeTrait> Node<B> {
//@ code src/lib.rs "Node::calc_cache" tags=C05
    fn calc_cache(&self, cache: &mut B::Cache, diff: Option<B::CacheDiff>) -> «(r:» B::CacheDiff«)
        requires diff is Some ==> B::USE_DIFF, diff is None ==> forall|k: int| 0 <= k < self.children@.len() ==> B::cok((#[trigger] self.children@[k]).cache)
        ensures
            diff is Some ==> r == diff->0 && *final(cache) == B::app(*old(cache), r),
            diff is None && (self.children@.len() > 0 || B::exact0()) ==> /*C05*/ *final(cache) == B::sum(cch(self.children@)),
            B::USE_DIFF ==> *final(cache) == B::app(*old(cache), r)»
    {
        match diff {
            Some(inner) => {
                B::apply_cache_diff(cache, &inner);
                inner
            }
            None => B::calc_cache_internal(cache, &self.children),
        }
    }
//@ end
}
impl<B: BTreeTrait> BTree<B> {
//@ code src/lib.rs "BTree::recursive_update_cache_with_diff" tags=C05,C16
    fn recursive_update_cache_with_diff(&mut self, node_idx: ArenaIndex, diff: B::CacheDiff)«
        requires B::USE_DIFF, old(self).ts().lnk(old(self).g@), node_idx is Internal, old(self).ts().has(node_idx),
            old(self).ts().pend(old(self).g@, old(self).root_cache, node_idx, diff)
        ensures final(self).g == old(self).g, old(self).ts().sim(final(self).ts()), final(self).in_nodes.used() == old(self).in_nodes.used(),
            final(self).leaf_nodes == old(self).leaf_nodes,
            /*C05*/ final(self).ts().caches_ok(), /*C05*/ final(self).root_cache == final(self).ts().kc(final(self).root)»
    {
        «let ghost t0 = self.ts(); let ghost g = self.g@; let ghost mut c = node_idx; let ghost rc = self.root_cache;
        proof { t0.lm_sim_refl(); t0.lm_node(g, c.ix()); t0.lm_root(g); }»
        let mut node = self.get_internal_mut(node_idx);
        let mut this_arr = node.parent_slot;
        «proof { assert(after_borrow(self).ts().nodes =~= t0.nodes); assert(after_borrow(self).ts() == t0); }»
        while node.parent.is_some()
            «invariant
                B::USE_DIFF, t0.lnk(g), t0.sim(after_borrow(self).ts()), after_borrow(self).g@ == g, after_borrow(self).root_cache == rc,
                after_borrow(self).in_nodes.used() == old(self).in_nodes.used(), after_borrow(self).leaf_nodes == old(self).leaf_nodes,
                after_borrow(self).root == t0.root,
                c is Internal, after_borrow(self).in_nodes@.contains_key(c.ix()), *final(node) == after_borrow(self).in_nodes@[c.ix()], *final(node) == *node,
                after_borrow(self).ts().pend(g, rc, c, diff), this_arr == node.parent_slot,
            decreases g.lv.len() - (g.ht)(c.ix())»
        {
            let parent_idx = node.parent.unwrap();
            «let ghost t = self.ts(); let ghost p = t.par(c); let ghost k = plc(g, c) - (g.fst)(p);
            proof {
                t0.lm_sim(t, g); t.lm_root(g); t.lm_node(g, c.ix());
                t.lm_pend_up(g, rc, c, diff); t.lm_par(g, c); t.lm_node(g, p);
            }»
            let parent = self.get_internal_mut(parent_idx);
            B::apply_cache_diff(&mut parent.children[this_arr as usize].cache, &diff);
            this_arr = parent.parent_slot;
            node = parent;
            «proof {
                let t2 = t.setc(p, k, B::app(t.nodes[p].ch[k].cache, diff));
                assert(ns(*node).ch =~= t2.nodes[p].ch);
                assert(after_borrow(self).ts().nodes =~= t2.nodes);
                assert(after_borrow(self).ts() == t2);
                t0.lm_sim_trans(t, t2);
                c = ArenaIndex::Internal(p);
            }»
        }
        «proof { let t = self.ts(); t0.lm_sim(t, g); t.lm_root(g); t.lm_node(g, c.ix()); t.lm_cx_root(g); }»
        B::apply_cache_diff(&mut self.root_cache, &diff);
    }
//@ end
//@ code src/lib.rs "BTree::update_root_cache" tags=C05,C16
    fn update_root_cache(&mut self)«
        requires old(self).ts().lnk(old(self).g@), old(self).ts().caches_ok()
        ensures final(self).g == old(self).g, final(self).in_nodes == old(self).in_nodes, final(self).leaf_nodes == old(self).leaf_nodes,
            final(self).root == old(self).root, /*C05*/ final(self).ts().root_cache_ok(final(self).root_cache)»
    {
        «proof { let t = self.ts(); t.lm_root(self.g@); reveal(TS::caches_ok); assert(t.cache_ok(t.rt())); assert(t.nodes[t.rt()].ch == self.in_nodes@[t.rt()].children@); }»
        self.in_nodes
            .get(self.root.unwrap_internal())
            .unwrap()
            .calc_cache(&mut self.root_cache, None);
    }
//@ end
//@ code src/lib.rs "BTree::recursive_update_cache" tags=C05,C16
    fn recursive_update_cache(
        &mut self,
        mut node_idx: ArenaIndex,
        can_use_diff: bool,
        cache_diff: Option<B::CacheDiff>,
    )«
        requires
            can_use_diff ==> B::USE_DIFF, old(self).ts().lnk(old(self).g@), old(self).ts().has(node_idx),
            node_idx is Leaf ==> old(self).leaf_nodes@[node_idx.ix()].elem.ok(),
            ({
                let t = old(self).ts().fix(old(self).g@, node_idx);
                let u = old(self).ts().up(node_idx);
                &&& t.cx(u)
                &&& t.n(u.ix()) > 0 || B::exact0() || u == old(self).root
                &&& can_use_diff && u != old(self).root ==> old(self).root_cache == old(self).ts().kc(old(self).root)
                &&& can_use_diff && cache_diff is Some ==> t.pend(old(self).g@, old(self).root_cache, u, cache_diff->0)
            })
        ensures final(self).g == old(self).g, old(self).ts().sim(final(self).ts()), final(self).in_nodes.used() == old(self).in_nodes.used(),
            final(self).leaf_nodes == old(self).leaf_nodes,
            /*C05*/ final(self).ts().caches_ok(), /*C05*/ final(self).ts().root_cache_ok(final(self).root_cache)»
    {
        «let ghost g = self.g@; let ghost i0 = node_idx; let ghost t0 = self.ts().fix(g, i0);
        proof {
            let t = self.ts();
            t.lm_root(g);
            t.lm_sim_refl();
            if i0 is Leaf {
                t.lm_par(g, i0); t.lm_node(g, t.par(i0));
                t.lm_setc(t.par(i0), (g.lpos)(i0.ix()) - (g.fst)(t.par(i0)), B::ec(t.leaves[i0.ix()].elem));
            }
            t.lm_sim(t0, g);
            t.lm_sim1(t0, t.rt());
        }»
        if let ArenaIndex::Leaf(index) = node_idx {
            let leaf = self.leaf_nodes.get(index).unwrap();
            let cache = B::get_elem_cache(&leaf.elem);
            node_idx = leaf.parent();
            let node = self.get_internal_mut(node_idx);
            {
                «let ghost ch0 = node.children@; proof {
                    let t = old(self).ts();
                    assert(t.nodes[node_idx.ix()] == ns(*node));
                    assert forall|k: int| 0 <= k < ch0.len() implies (#[trigger] ch0[k]).arena is Leaf && (ch0[k].arena.ix() == index ==> k == (g.lpos)(index) - (g.fst)(node_idx.ix()))
                        by { t.lm_child(g, node_idx.ix(), k); assert(ch0[k] == t.nodes[node_idx.ix()].ch[k]); }
                    assert(ch0[(g.lpos)(index) - (g.fst)(node_idx.ix())].arena == i0);
                }»
                let vx_i = vx_position(&node.children, |x«: &Child<B>»| «-> (b: bool) requires x.arena is Leaf ensures b == (x.arena.ix() == index) {» x.arena.unwrap_leaf() == index «}»);
                node.children[vx_i].cache = cache;
                «proof {
                    assert(ns(*node).ch =~= t0.nodes[node_idx.ix()].ch);
                    assert(after_borrow(self).ts().nodes =~= t0.nodes);
                }»
            }
        }
        «let ghost rc = self.root_cache; let ghost mut c = node_idx;
        proof { assert(self.ts() == t0); assert(c == old(self).ts().up(i0)); t0.lm_root(g); t0.lm_node(g, c.ix()); t0.lm_sim_refl(); B::law_c0();
            assert forall|o: TS<B>| #[trigger] t0.sim(o) implies old(self).ts().sim(o) by { old(self).ts().lm_sim_trans(t0, o); }
        }»
        if can_use_diff {
            if let Some(diff) = cache_diff {
                return self.recursive_update_cache_with_diff(node_idx, diff);
            }
        }
        let mut this_idx = node_idx;
        let mut node = self.get_internal_mut(node_idx);
        let mut this_arr = node.parent_slot;
        «proof { assert(after_borrow(self).ts().nodes =~= t0.nodes); assert(after_borrow(self).ts() == t0); }»
        if can_use_diff {
            if node.parent.is_some() {
                let parent_idx = node.parent.unwrap();
                «let ghost p = t0.par(c); let ghost k = plc(g, c) - (g.fst)(p);
                proof {
                    t0.lm_par(g, c); t0.lm_node(g, p); t0.lm_kc_ok(g, c); t0.lm_up(g, c);
                    reveal(TS::cx); assert(t0.cx1(c, c.ix()));
                }»
                let (parent, this) = self.get2_mut(parent_idx, this_idx);
                «let ghost e0 = parent.children@[k].cache;»
                let diff =
                    this.calc_cache(&mut parent.children[this_arr as usize].cache, cache_diff);
                «proof {
                    let t2 = t0.setc(p, k, t0.kc(c));
                    assert(cch(this.children@) == t0.kids(c.ix()));
                    assert(ns(*parent).ch =~= t2.nodes[p].ch);
                    assert(after_borrow(self).ts().nodes =~= t2.nodes);
                    assert(after_borrow(self).ts() == t2);
                    let pa = ArenaIndex::Internal(p);
                    B::law_app(t0.kids(p), k, diff);
                    assert(t0.kids(p)[k] == e0);
                    assert(t2.kc(pa) == B::app(t0.kc(pa), diff));
                    if pa != t0.root {
                        t0.lm_par(g, pa);
                        let q = t0.par(pa);
                        assert(t0.cx1(c, q));
                        assert(t0.nodes[q].ch[plc(g, pa) - (g.fst)(q)].cache == t0.kc(pa));
                    }
                    t0.lm_sim(t2, g);
                    t0.lm_setc(p, k, t0.kc(c));
                    old(self).ts().lm_sim_trans(t0, t2);
                    assert forall|o: TS<B>| #[trigger] t2.sim(o) implies old(self).ts().sim(o) by { old(self).ts().lm_sim_trans(t2, o); }
                }»
                return self.recursive_update_cache_with_diff(parent_idx, diff);
            }
        } else {
            while node.parent.is_some()
                «invariant
                    t0.lnk(g), t0.sim(after_borrow(self).ts()), after_borrow(self).g@ == g, after_borrow(self).root_cache == rc,
                    after_borrow(self).in_nodes.used() == old(self).in_nodes.used(), after_borrow(self).leaf_nodes == old(self).leaf_nodes,
                    after_borrow(self).root == t0.root, this_idx == c,
                    c is Internal, after_borrow(self).in_nodes@.contains_key(c.ix()), *final(node) == after_borrow(self).in_nodes@[c.ix()], *final(node) == *node,
                    after_borrow(self).ts().cx(c), this_arr == node.parent_slot,
                    node.children@.len() > 0 || B::exact0() || c == t0.root,
                decreases g.lv.len() - (g.ht)(c.ix())»
            {
                let parent_idx = node.parent.unwrap();
                «let ghost t = self.ts(); let ghost p = t.par(c); let ghost k = plc(g, c) - (g.fst)(p);
                proof {
                    t0.lm_sim(t, g); t.lm_root(g); t.lm_node(g, c.ix());
                    t.lm_par(g, c); t.lm_node(g, p); t.lm_kc_ok(g, c); t.lm_up(g, c);
                    reveal(TS::cx); assert(t.cx1(c, c.ix()));
                }»
                let (parent, this) = self.get2_mut(parent_idx, this_idx);
                this.calc_cache(&mut parent.children[this_arr as usize].cache, None);
                this_idx = parent_idx;
                this_arr = parent.parent_slot;
                node = parent;
                «proof {
                    let t2 = t.setc(p, k, t.kc(c));
                    assert(cch(this.children@) == t.kids(c.ix()));
                    assert(ns(*node).ch =~= t2.nodes[p].ch);
                    assert(after_borrow(self).ts().nodes =~= t2.nodes);
                    assert(after_borrow(self).ts() == t2);
                    t0.lm_sim_trans(t, t2);
                    c = ArenaIndex::Internal(p);
                }»
            }
        }
        «proof {
            let t = self.ts();
            t0.lm_sim(t, g); t.lm_root(g); t.lm_node(g, c.ix()); t.lm_cx_root(g); old(self).ts().lm_sim_trans(t0, t);
            reveal(TS::cx); assert(t.cx1(t.root, t.rt())); assert(t.nodes[t.rt()].ch == self.in_nodes@[t.rt()].children@);
        } let ghost t9 = self.ts();»
        let mut root_cache = vx_take(&mut self.root_cache);
        let root = self.root_mut();
        root.calc_cache(
            &mut root_cache,
            if can_use_diff { cache_diff } else { None },
        );
        self.root_cache = root_cache;
        «proof { assert(self.ts().nodes =~= t9.nodes); assert(self.ts() == t9); }»
    }
//@ end
}
