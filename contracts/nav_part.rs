impl<B: BTreeTrait> TS<B> {
    // the path from the root down to its last entry
    spec fn path_ok(self, p: Seq<Idx>) -> bool {
        &&& p.len() >= 1 && p[0].arena == self.root
        &&& forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] self.step_ok(p, i)
    }
    spec fn step_ok(self, p: Seq<Idx>, i: int) -> bool {
        &&& p[i].arena is Internal && self.nodes.contains_key(p[i].arena.ix())
        &&& p[i + 1].arr < self.n(p[i].arena.ix())
        &&& p[i + 1].arena == self.nodes[p[i].arena.ix()].ch[p[i + 1].arr as int].arena
    }
    proof fn lm_path(self, g: G, p: Seq<Idx>, i: int)
        requires self.shape(g), self.path_ok(p), 0 <= i < p.len()
        ensures self.has(p[i].arena), hgt(g, p[i].arena) == g.lv.len() - 1 - i, 0 <= plc(g, p[i].arena) < g.lv[hgt(g, p[i].arena)].len(),
            i > 0 ==> plc(g, p[i].arena) == (g.fst)(p[i - 1].arena.ix()) + p[i].arr,
        decreases i
    {
        self.lm_root(g);
        if i > 0 {
            self.lm_path(g, p, i - 1);
            assert(self.step_ok(p, i - 1));
            self.lm_node(g, p[i - 1].arena.ix());
            self.lm_child(g, p[i - 1].arena.ix(), p[i].arr as int);
        }
    }
    // from the place i: the place and offset d positions further on
    spec fn fwd(self, g: G, i: int, d: int) -> Option<(int, int)>
        decreases g.lv[0].len() - i
    {
        if i < 0 || i >= g.lv[0].len() { None } else if d < self.elen(g, i) { Some((i, d)) } else { self.fwd(g, i + 1, d - self.elen(g, i)) }
    }
}
spec fn ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }

impl<B: BTreeTrait> BTree<B> {
//@ code src/lib.rs "BTree::get_leaf_slot" tags=C10,C16
    fn get_leaf_slot(leaf_arena_index: RawArenaIndex, parent: &Node<B>) -> «(r:» usize«)
        requires
            forall|i: int| 0 <= i < parent.children@.len() ==> (#[trigger] parent.children@[i]).arena is Leaf,
            exists|i: int| 0 <= i < parent.children@.len() && (#[trigger] parent.children@[i]).arena == ArenaIndex::Leaf(leaf_arena_index),
        ensures
            r < parent.children@.len(), parent.children@[r as int].arena == ArenaIndex::Leaf(leaf_arena_index)»
    {
        vx_position(&parent.children, |x«: &Child<B>»| «-> (b: bool) requires x.arena is Leaf ensures b == (x.arena.ix() == leaf_arena_index) {»
            x.arena.unwrap_leaf() == leaf_arena_index «}»)
    }
//@ end
//@ code src/lib.rs "BTree::first_leaf" tags=C10
    fn first_leaf(&self) -> «(r:» Option<LeafIndex>«)
        requires self.ts().shape(self.g@)
        ensures
            self.order().len() == 0 ==> r is None,
            self.order().len() > 0 ==> r == Some(LeafIndex(self.order()[0])) && self.has(r->0) && self.at(r->0) == 0»
    {
        «proof { self.lm_ts(); self.ts().lm_root(self.g@); self.lm_empty(); }
        let ghost mut m = self.ts().rt();»
        let mut index = self.root;
        let mut node = self.in_nodes.get(index.unwrap_internal()).unwrap();
        loop
            «invariant
                self.ts().shape(self.g@), self.in_nodes@.contains_key(m), *node == self.in_nodes@[m], (self.g@.pos)(m) == 0,
                m == self.ts().rt() || self.ts().n(m) > 0,
                (self.order().len() == 0) == (self.ts().n(self.ts().rt()) == 0),
            decreases (self.g@.ht)(m)»
        {
            «proof { self.lm_ts(); self.ts().lm_node(self.g@, m);
                if self.ts().n(m) > 0 { self.ts().lm_child(self.g@, m, 0); } }»
            index = node.children.first()?.arena;
            match index {
                ArenaIndex::Leaf(leaf) => {
                    return Some(leaf.into());
                }
                ArenaIndex::Internal(index) => {
                    «proof { m = index; self.ts().lm_node(self.g@, m); }»
                    node = self.in_nodes.get(index).unwrap();
                }
            }
        }
    }
//@ end
//@ code src/lib.rs "BTree::last_leaf" tags=C10
    fn last_leaf(&self) -> «(r:» Option<LeafIndex>«)
        requires self.ts().shape(self.g@)
        ensures
            self.order().len() == 0 ==> r is None,
            self.order().len() > 0 ==> r == Some(LeafIndex(self.order().last())) && self.has(r->0) && self.at(r->0) == self.order().len() - 1»
    {
        «proof { self.lm_ts(); self.ts().lm_root(self.g@); self.lm_empty(); }
        let ghost mut m = self.ts().rt();»
        let mut index = self.root;
        let mut node = self.in_nodes.get(index.unwrap_internal()).unwrap();
        loop
            «invariant
                self.ts().shape(self.g@), self.in_nodes@.contains_key(m), *node == self.in_nodes@[m],
                (self.g@.pos)(m) == self.g@.lv[(self.g@.ht)(m)].len() - 1,
                m == self.ts().rt() || self.ts().n(m) > 0,
                (self.order().len() == 0) == (self.ts().n(self.ts().rt()) == 0),
            decreases (self.g@.ht)(m)»
        {
            «proof { self.lm_ts(); self.ts().lm_node(self.g@, m);
                if self.ts().n(m) > 0 { self.ts().lm_child(self.g@, m, self.ts().n(m) - 1); } }»
            index = node.children.last()?.arena;
            match index {
                ArenaIndex::Leaf(leaf) => {
                    return Some(leaf.into());
                }
                ArenaIndex::Internal(index) => {
                    «proof { m = index; self.ts().lm_node(self.g@, m); }»
                    node = self.in_nodes.get(index).unwrap();
                }
            }
        }
    }
//@ end
//@ code src/lib.rs "BTree::next_same_level_in_node" tags=C10
    fn next_same_level_in_node(&self, node_idx: ArenaIndex) -> «(r:» Option<ArenaIndex>«)
        requires self.vs().shape(self.g@), self.vs().has(node_idx)
        ensures ({
            let h = hgt(self.g@, node_idx);
            let i = plc(self.g@, node_idx) + 1;
            &&& r is Some == (i < self.g@.lv[h].len())
            &&& r is Some ==> r->0 == aix(self.g@, h, i) && self.vs().has(r->0) && hgt(self.g@, r->0) == h && plc(self.g@, r->0) == i
        })
        decreases self.g@.lv.len() - hgt(self.g@, node_idx)»
    {
        «proof {
            self.lm_ts();
            let ts = self.vs();
            let g = self.g@;
            ts.lm_root(g);
            let h = hgt(g, node_idx);
            let i = plc(g, node_idx) + 1;
            match node_idx { ArenaIndex::Leaf(l) => { ts.lm_leaf(g, l); } ArenaIndex::Internal(n) => { ts.lm_node(g, n); } }
            if i < g.lv[h].len() { ts.lm_at(g, h, i); }
            if node_idx != self.root {
                ts.lm_par(g, node_idx);
                let p = ts.par(node_idx);
                ts.lm_node(g, p);
                let k = plc(g, node_idx) - (g.fst)(p);
                ts.lm_child(g, p, k);
                assert forall|j: int| 0 <= j < ts.n(p) implies (#[trigger] self.in_nodes@[p].children@[j]).arena == aix(g, h, (g.fst)(p) + j) by {
                    ts.lm_child(g, p, j);
                    assert(ts.nodes[p].ch[j].arena == aix(g, h, (g.fst)(p) + j));
                }
                assert(self.in_nodes@[p].children@[k].arena == node_idx);
                if node_idx is Leaf {
                    assert forall|j: int| 0 <= j < ts.n(p) && (#[trigger] self.in_nodes@[p].children@[j]).arena == node_idx implies j == k by {
                        ts.lm_child(g, p, j);
                    }
                }
                assert(hgt(g, ArenaIndex::Internal(p)) == h + 1 && plc(g, ArenaIndex::Internal(p)) == (g.pos)(p));
                if (g.pos)(p) + 1 < g.lv[(g.ht)(p)].len() {
                    ts.lm_next(g, p);
                    let q = g.lv[(g.ht)(p)][(g.pos)(p) + 1];
                    ts.lm_child(g, q, 0);
                    ts.lm_node(g, q);
                    assert(i < g.lv[h].len());
                }
                assert(k + 1 < ts.n(p) ==> i < g.lv[h].len());
                assert(k + 1 == ts.n(p) && (g.pos)(p) + 1 == g.lv[(g.ht)(p)].len() ==> i == g.lv[h].len());
            }
        }»
        match node_idx {
            ArenaIndex::Leaf(_) => {
                let leaf_idx = node_idx.unwrap_leaf();
                let leaf1 = self.leaf_nodes.get(leaf_idx).unwrap();
                let parent1 = self.get_internal(leaf1.parent());
                let (leaf, parent, index) =
                    (leaf1, parent1, Self::get_leaf_slot(leaf_idx, parent1));
                if index + 1 < parent.children.len() {
                    Some(parent.children[index + 1].arena)
                } else if let Some(parent_next) = self.next_same_level_in_node(leaf.parent()) {
                    let parent_next = self.get_internal(parent_next);
                    Some(parent_next.children.first().unwrap().arena)
                } else {
                    None
                }
            }
            ArenaIndex::Internal(_) => {
                let node = self.get_internal(node_idx);
                let parent = self.get_internal(node.parent?);
                if let Some(next) = parent.children.get(node.parent_slot as usize + 1) {
                    Some(next.arena)
                } else if let Some(parent_next) = self.next_same_level_in_node(node.parent?) {
                    let parent_next = self.get_internal(parent_next);
                    parent_next.children.first().map(|x«: &Child<B>»| «-> (a: ArenaIndex) ensures a == x.arena {» x.arena «}»)
                } else {
                    None
                }
            }
        }
    }
//@ end
//@ code src/lib.rs "BTree::prev_same_level_in_node" tags=C10
    fn prev_same_level_in_node(&self, node_idx: ArenaIndex) -> «(r:» Option<ArenaIndex>«)
        requires self.ts().shape(self.g@), self.ts().has(node_idx)
        ensures ({
            let h = hgt(self.g@, node_idx);
            let i = plc(self.g@, node_idx) - 1;
            &&& r is Some == (i >= 0)
            &&& r is Some ==> r->0 == aix(self.g@, h, i) && self.ts().has(r->0) && hgt(self.g@, r->0) == h && plc(self.g@, r->0) == i
        })
        decreases self.g@.lv.len() - hgt(self.g@, node_idx)»
    {
        «proof {
            self.lm_ts();
            let ts = self.ts();
            let g = self.g@;
            ts.lm_root(g);
            let h = hgt(g, node_idx);
            let i = plc(g, node_idx) - 1;
            match node_idx { ArenaIndex::Leaf(l) => { ts.lm_leaf(g, l); } ArenaIndex::Internal(n) => { ts.lm_node(g, n); } }
            if i >= 0 { ts.lm_at(g, h, i); }
            if node_idx != self.root {
                ts.lm_par(g, node_idx);
                let p = ts.par(node_idx);
                ts.lm_node(g, p);
                let k = plc(g, node_idx) - (g.fst)(p);
                ts.lm_child(g, p, k);
                assert forall|j: int| 0 <= j < ts.n(p) implies (#[trigger] self.in_nodes@[p].children@[j]).arena == aix(g, h, (g.fst)(p) + j) by {
                    ts.lm_child(g, p, j);
                    assert(ts.nodes[p].ch[j].arena == aix(g, h, (g.fst)(p) + j));
                }
                assert(self.in_nodes@[p].children@[k].arena == node_idx);
                if node_idx is Leaf {
                    assert forall|j: int| 0 <= j < ts.n(p) && (#[trigger] self.in_nodes@[p].children@[j]).arena == node_idx implies j == k by {
                        ts.lm_child(g, p, j);
                    }
                }
                assert(hgt(g, ArenaIndex::Internal(p)) == h + 1 && plc(g, ArenaIndex::Internal(p)) == (g.pos)(p));
                if (g.pos)(p) > 0 {
                    ts.lm_prev(g, p);
                    let q = g.lv[(g.ht)(p)][(g.pos)(p) - 1];
                    ts.lm_child(g, q, ts.n(q) - 1);
                    ts.lm_node(g, q);
                    assert(i >= 0);
                }
                assert(k > 0 ==> i >= 0);
                assert(k == 0 && (g.pos)(p) == 0 ==> i < 0);
            }
        }»
        match node_idx {
            ArenaIndex::Leaf(leaf_idx) => {
                let leaf = self.leaf_nodes.get(leaf_idx).unwrap();
                let parent = self.get_internal(leaf.parent());
                let index = Self::get_leaf_slot(leaf_idx, parent);
                if index > 0 {
                    Some(parent.children[index - 1].arena)
                } else if let Some(parent_next) = self.prev_same_level_in_node(leaf.parent()) {
                    let parent_next = self.get_internal(parent_next);
                    Some(parent_next.children.last().unwrap().arena)
                } else {
                    None
                }
            }
            ArenaIndex::Internal(_) => {
                let node = self.get_internal(node_idx);
                let parent = self.get_internal(node.parent?);
                if node.parent_slot > 0 {
                    let Some(next) = parent.children.get(node.parent_slot as usize - 1) else {
                        unreachable!()
                    };
                    Some(next.arena)
                } else if let Some(parent_prev) = self.prev_same_level_in_node(node.parent?) {
                    let parent_prev = self.get_internal(parent_prev);
                    parent_prev.children.last().map(|x«: &Child<B>»| «-> (a: ArenaIndex) ensures a == x.arena {» x.arena «}»)
                } else {
                    None
                }
            }
        }
    }
//@ end
//@ code src/lib.rs "BTree::next_elem" tags=C10
    fn next_elem(&self, path: Cursor) -> «(r:» Option<Cursor>«)
        requires self.vs().shape(self.g@), self.vs().has(ArenaIndex::Leaf(path.leaf.0))
        ensures
            r == (if self.at(path.leaf) + 1 < self.order().len() {
                Some(Cursor { leaf: LeafIndex(self.order()[self.at(path.leaf) + 1]), offset: 0 })
            } else { None::<Cursor> }),
            r is Some ==> self.vs().has(ArenaIndex::Leaf(r->0.leaf.0)) && self.at(r->0.leaf) == self.at(path.leaf) + 1»
    {
        self.next_same_level_in_node(path.leaf.into())
            .map(|x«: ArenaIndex»| «-> (c: Cursor) requires x is Leaf ensures c == (Cursor { leaf: LeafIndex(x.ix()), offset: 0 }) {» Cursor {
                leaf: x.unwrap_leaf().into(),
                offset: 0,
            } «}»)
    }
//@ end
//@ code src/lib.rs "BTree::prev_elem" tags=C10
    fn prev_elem(&self, path: Cursor) -> «(r:» Option<Cursor>«)
        requires self.ts().shape(self.g@), self.has(path.leaf)
        ensures
            r == (if self.at(path.leaf) > 0 {
                Some(Cursor { leaf: LeafIndex(self.order()[self.at(path.leaf) - 1]), offset: 0 })
            } else { None::<Cursor> }),
            r is Some ==> self.has(r->0.leaf) && self.at(r->0.leaf) == self.at(path.leaf) - 1»
    {
        self.prev_same_level_in_node(path.leaf.into())
            .map(|x«: ArenaIndex»| «-> (c: Cursor) requires x is Leaf ensures c == (Cursor { leaf: LeafIndex(x.ix()), offset: 0 }) {» Cursor {
                leaf: x.unwrap_leaf().into(),
                offset: 0,
            } «}»)
    }
//@ end
}
