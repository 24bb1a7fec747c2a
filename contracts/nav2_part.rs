// Paths, comparison of positions, cursors.
//@ rw &mut path[..depth - 1] ==> vx_upto_mut(path, depth - 1)
// &mut s[..n]
#[verifier::external_body]
fn vx_upto_mut<T>(s: &mut [T], n: usize) -> (r: &mut [T])
    requires n <= old(s)@.len()
    ensures r@ == old(s)@.subrange(0, n as int), final(s)@.len() == old(s)@.len(),
        final(r)@.len() == n ==> final(r)@ == final(s)@.subrange(0, n as int),
        final(r)@.len() == n ==> forall|i: int| 0 <= i < n ==> #[trigger] final(s)@[i] == final(r)@[i],
        forall|i: int| n <= i < old(s)@.len() ==> final(s)@[i] == #[trigger] old(s)@[i],
{ &mut s[..n] }
impl<B: BTreeTrait> BTree<B> {
    // the tree with the leaves its nodes list, when some of them were taken out of the arena already
    spec fn ks(&self) -> TS<B> {
        if self.ts().shape(self.g@) { self.ts() } else {
            let m = choose|m: Map<RawArenaIndex, LeafNode<B::Elem>>| (TS::<B> { leaves: m, nodes: self.ts().nodes, root: self.root }).shape(self.g@);
            TS { leaves: m, nodes: self.ts().nodes, root: self.root }
        }
    }
}
impl<B: BTreeTrait> TS<B> {
    // a path under construction from its end upwards
    spec fn up_ok(self, p: Seq<Idx>, top: ArenaIndex) -> bool {
        forall|i: int| 0 <= i < p.len() ==> #[trigger] self.ustep_ok(p, top, i)
    }
    spec fn ustep_ok(self, p: Seq<Idx>, top: ArenaIndex, i: int) -> bool {
        let q = if i + 1 < p.len() { p[i + 1].arena } else { top };
        &&& q is Internal && self.nodes.contains_key(q.ix()) && p[i].arr < self.n(q.ix())
        &&& p[i].arena == self.nodes[q.ix()].ch[p[i].arr as int].arena
    }
    proof fn lm_up_push(self, p: Seq<Idx>, top: ArenaIndex, x: Idx)
        requires self.up_ok(p, x.arena), top is Internal, self.nodes.contains_key(top.ix()), x.arr < self.n(top.ix()),
            x.arena == self.nodes[top.ix()].ch[x.arr as int].arena,
        ensures self.up_ok(p.push(x), top)
    {
        let q = p.push(x);
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] self.ustep_ok(q, top, i) by {
            if i < p.len() { assert(self.ustep_ok(p, x.arena, i)); }
        }
    }
    proof fn lm_up_done(self, p: Seq<Idx>, x: Idx)
        requires self.up_ok(p, x.arena), x.arena == self.root
        ensures self.path_ok(p.push(x).reverse()), p.push(x).reverse().last() == p.push(x)[0]
    {
        let q = p.push(x);
        let r = q.reverse();
        assert forall|i: int| 0 <= i < r.len() - 1 implies #[trigger] self.step_ok(r, i) by {
            assert(self.ustep_ok(p, x.arena, q.len() - 2 - i));
        }
    }
    proof fn lm_path_push(self, p: Seq<Idx>, x: Idx)
        requires self.path_ok(p), p.last().arena is Internal, self.nodes.contains_key(p.last().arena.ix()), x.arr < self.n(p.last().arena.ix()),
            x.arena == self.nodes[p.last().arena.ix()].ch[x.arr as int].arena,
        ensures self.path_ok(p.push(x))
    {
        let q = p.push(x);
        assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] self.step_ok(q, i) by {
            if i < p.len() - 1 { assert(self.step_ok(p, i)); }
        }
    }
    proof fn lm_path_cut(self, p: Seq<Idx>, k: int)
        requires self.path_ok(p), 1 <= k <= p.len()
        ensures self.path_ok(p.subrange(0, k)), p.subrange(0, k).last() == p[k - 1]
    {
        let q = p.subrange(0, k);
        assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] self.step_ok(q, i) by { assert(self.step_ok(p, i)); }
    }
}

impl<B: BTreeTrait> BTree<B> {
//@ code src/lib.rs "BTree::compare_pos" tags=C10,C16
    fn compare_pos(&self, a: Cursor, b: Cursor) -> «(r:» Ordering«)
        requires self.ts().shape(self.g@), self.has(a.leaf), self.has(b.leaf)
        ensures r == (if a.leaf == b.leaf { ord(a.offset as int, b.offset as int) } else { ord(self.at(a.leaf), self.at(b.leaf)) })»
    {
        if a.leaf == b.leaf {
            return a.offset.cmp(&b.offset);
        }

        «let ghost ts = self.ts();
        let ghost g = self.g@;
        let ghost mut ma = self.leaf_nodes@[a.leaf.0].parent;
        let ghost mut mb = self.leaf_nodes@[b.leaf.0].parent;
        proof {
            self.lm_ts();
            ts.lm_root(g);
            ts.lm_par(g, ArenaIndex::Leaf(a.leaf.0));
            ts.lm_par(g, ArenaIndex::Leaf(b.leaf.0));
            ts.lm_node(g, ma);
            ts.lm_node(g, mb);
            assert forall|j: int| 0 <= j < ts.n(ma) implies (#[trigger] self.in_nodes@[ma].children@[j]).arena == ArenaIndex::Leaf(g.lv[0][(g.fst)(ma) + j])
                && (g.lpos)(g.lv[0][(g.fst)(ma) + j]) == (g.fst)(ma) + j by {
                ts.lm_child(g, ma, j);
                assert(ts.nodes[ma].ch[j].arena == aix(g, 0, (g.fst)(ma) + j));
            }
            assert(self.at(a.leaf) != self.at(b.leaf)) by {
                ts.lm_leaf(g, a.leaf.0);
                ts.lm_leaf(g, b.leaf.0);
            }
        }»
        let leaf_a = self.leaf_nodes.get(a.leaf.0).unwrap();
        let leaf_b = self.leaf_nodes.get(b.leaf.0).unwrap();
        let mut node_a = self.get_internal(leaf_a.parent());
        if leaf_a.parent == leaf_b.parent {
            for child in «it:» node_a.children.iter()
                «invariant
                    ts == self.ts(), g == self.g@, *node_a == self.in_nodes@[ma], ts.shape(g), ma == mb,
                    self.at(a.leaf) != self.at(b.leaf),
                    it.seq().len() == node_a.children@.len(), forall|j: int| 0 <= j < it.seq().len() ==> #[trigger] it.seq()[j] == &node_a.children@[j],
                    (g.fst)(ma) <= self.at(a.leaf) < (g.fst)(ma) + node_a.children@.len(),
                    (g.fst)(ma) <= self.at(b.leaf) < (g.fst)(ma) + node_a.children@.len(),
                    forall|j: int| 0 <= j < node_a.children@.len() ==> (#[trigger] node_a.children@[j]).arena == ArenaIndex::Leaf(g.lv[0][(g.fst)(ma) + j])
                        && (g.lpos)(g.lv[0][(g.fst)(ma) + j]) == (g.fst)(ma) + j,
                    g.lv[0][self.at(a.leaf)] == a.leaf.0, g.lv[0][self.at(b.leaf)] == b.leaf.0,
                    (g.fst)(ma) + it.index() <= self.at(a.leaf), (g.fst)(ma) + it.index() <= self.at(b.leaf),»
            {
                «proof { assert(*child == node_a.children@[it.index()]); }»
                if child.arena.unwrap() == a.leaf.0 {
                    return Ordering::Less;
                }
                if child.arena.unwrap() == b.leaf.0 {
                    return Ordering::Greater;
                }
            }
        }

        «proof {
            if ma != mb {
                if (g.pos)(ma) <= (g.pos)(mb) { ts.lm_order(g, ma, mb); }
                if (g.pos)(ma) >= (g.pos)(mb) { ts.lm_order(g, mb, ma); }
            }
        }»
        let mut node_b = self.get_internal(leaf_b.parent());
        while node_a.parent != node_b.parent
            «invariant
                ts == self.ts(), g == self.g@, ts.shape(g), ma != mb, ts.nodes.contains_key(ma), ts.nodes.contains_key(mb),
                *node_a == self.in_nodes@[ma], *node_b == self.in_nodes@[mb], (g.ht)(ma) == (g.ht)(mb), (g.pos)(ma) != (g.pos)(mb),
                ((g.pos)(ma) < (g.pos)(mb)) == (self.at(a.leaf) < self.at(b.leaf)), self.at(a.leaf) != self.at(b.leaf),
            decreases g.lv.len() - (g.ht)(ma)»
        {
            «proof {
                self.lm_ts();
                ts.lm_node(g, ma);
                ts.lm_node(g, mb);
                ts.lm_root(g);
                ts.lm_par(g, ArenaIndex::Internal(ma));
                ts.lm_par(g, ArenaIndex::Internal(mb));
                let pa = ts.par(ArenaIndex::Internal(ma));
                let pb = ts.par(ArenaIndex::Internal(mb));
                if (g.pos)(pa) <= (g.pos)(pb) { ts.lm_order(g, pa, pb); }
                if (g.pos)(pa) >= (g.pos)(pb) { ts.lm_order(g, pb, pa); }
                ma = pa;
                mb = pb;
            }»
            node_a = self.get_internal(node_a.parent.unwrap());
            node_b = self.get_internal(node_b.parent.unwrap());
        }
        «proof {
            self.lm_ts();
            ts.lm_node(g, ma);
            ts.lm_node(g, mb);
            ts.lm_root(g);
            ts.lm_par(g, ArenaIndex::Internal(ma));
            ts.lm_par(g, ArenaIndex::Internal(mb));
        }»

        node_a.parent_slot.cmp(&node_b.parent_slot)
    }
//@ end
//@ code src/lib.rs "BTree::shift_path_by_one_offset" tags=C10,C16
    fn shift_path_by_one_offset(&self, mut path: Cursor) -> «(r:» Option<Cursor>«)
        requires self.ts().shape(self.g@), self.ts().elems_ok(), self.has(path.leaf), path.offset < usize::MAX
        ensures match self.ts().fwd(self.g@, self.at(path.leaf), path.offset + 1) {
            None => r is None,
            Some((i, o)) => r is Some && r->0.leaf == LeafIndex(self.order()[i]) && r->0.offset == o,
        }»
    {
        «let ghost ts = self.ts();
        let ghost g = self.g@;
        let ghost p0 = path;
        proof {
            self.lm_ts();
            ts.lm_leaf(g, path.leaf.0);
            ts.lm_par(g, ArenaIndex::Leaf(path.leaf.0));
            ts.lm_elems_ok(path.leaf.0);
            let p = self.leaf_nodes@[path.leaf.0].parent;
            ts.lm_node(g, p);
            assert forall|j: int| 0 <= j < ts.n(p) implies (#[trigger] self.in_nodes@[p].children@[j]).arena == ArenaIndex::Leaf(g.lv[0][(g.fst)(p) + j]) by {
                assert(ts.nodes[p].ch[j].arena == aix(g, 0, (g.fst)(p) + j));
            }
            assert(self.in_nodes@[p].children@[self.at(path.leaf) - (g.fst)(p)].arena == ArenaIndex::Leaf(path.leaf.0));
            assert forall|j: int| 0 <= j < ts.n(p) && (#[trigger] self.in_nodes@[p].children@[j]).arena == ArenaIndex::Leaf(path.leaf.0)
                implies j == self.at(path.leaf) - (g.fst)(p) by { ts.lm_child(g, p, j); }
        }»
        let leaf = self.leaf_nodes.get(path.leaf.0).unwrap();
        if path.offset + 1 < leaf.elem.rle_len() {
            path.offset += 1;
            return Some(path);
        }

        let mut parent_idx = leaf.parent;
        let mut parent = self.in_nodes.get(leaf.parent).unwrap();
        let mut elem_slot_index = Self::get_leaf_slot(path.leaf.0, parent);
        path.offset += 1;
        «#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]»
        loop
            «invariant
                ts == self.ts(), g == self.g@, ts.shape(g), ts.elems_ok(),
                ts.nodes.contains_key(parent_idx), (g.ht)(parent_idx) == 1, *parent == self.in_nodes@[parent_idx],
                elem_slot_index <= parent.children@.len(),
                ts.fwd(g, (g.fst)(parent_idx) + elem_slot_index, path.offset as int) == ts.fwd(g, self.at(p0.leaf), p0.offset + 1),
            ensures match ts.fwd(g, self.at(p0.leaf), p0.offset + 1) {
                None => false,
                Some((i, o)) => path.leaf == LeafIndex(self.order()[i]) && path.offset == o,
            },
            decreases g.lv[0].len() - (g.fst)(parent_idx) - elem_slot_index»
        {
            «proof {
                self.lm_ts();
                ts.lm_node(g, parent_idx);
                assert(hgt(g, ArenaIndex::Internal(parent_idx)) == 1 && plc(g, ArenaIndex::Internal(parent_idx)) == (g.pos)(parent_idx));
                if (g.pos)(parent_idx) + 1 < g.lv[1].len() { ts.lm_next(g, parent_idx); }
            }»
            if elem_slot_index == parent.children.len() {
                if let Some(next) = self.next_same_level_in_node(ArenaIndex::Internal(parent_idx)) {
                    elem_slot_index = 0;
                    parent_idx = next.unwrap_internal();
                    parent = self.in_nodes.get(parent_idx).unwrap();
                } else {
                    «proof { assert((g.fst)(parent_idx) + elem_slot_index == g.lv[0].len()); assert(ts.fwd(g, g.lv[0].len() as int, path.offset as int) is None); }»
                    return None;
                }
            }

            «proof {
                let i = (g.fst)(parent_idx) + elem_slot_index;
                ts.lm_node(g, parent_idx);
                ts.lm_child(g, parent_idx, elem_slot_index as int);
                ts.lm_elems_ok(g.lv[0][i]);
            }»
            let elem = &parent.children[elem_slot_index];
            let leaf = self.leaf_nodes.get(elem.arena.unwrap()).unwrap();
            if leaf.elem.rle_len() <= path.offset {
                path.offset -= leaf.elem.rle_len();
                elem_slot_index += 1;
            } else {
                path.leaf = elem.arena.unwrap_leaf().into();
                break;
            }
        }

        Some(path)
    }
//@ end
//@ code src/lib.rs "BTree::get_path" tags=C10,C16
    fn get_path(&self, idx: ArenaIndex) -> «(r:» NodePath«)
        requires self.ts().shape(self.g@), self.ts().has(idx), self.g@.lv.len() <= 16
        ensures self.ts().path_ok(r@), r@.last().arena == idx, r@.len() == self.g@.lv.len() - hgt(self.g@, idx)»
    {
        «let ghost ts = self.ts();
        let ghost g = self.g@;
        proof {
            ts.lm_root(g);
            match idx { ArenaIndex::Leaf(l) => { ts.lm_leaf(g, l); } ArenaIndex::Internal(n) => { ts.lm_node(g, n); } }
        }»
        let mut path = NodePath::new();
        let mut node_idx = idx;
        while node_idx != self.root
            «invariant
                ts == self.ts(), g == self.g@, ts.shape(g), ts.has(node_idx), self.g@.lv.len() <= 16,
                hgt(g, node_idx) == hgt(g, idx) + path@.len(),
                ts.up_ok(path@, node_idx),
                path@.len() > 0 ==> path@[0].arena == idx,
                path@.len() == 0 ==> node_idx == idx,
                hgt(g, idx) >= 0, hgt(g, node_idx) < g.lv.len(),
            decreases g.lv.len() - hgt(g, node_idx)»
        {
            «let ghost p = ts.par(node_idx);
            proof {
                self.lm_ts();
                ts.lm_root(g);
                ts.lm_par(g, node_idx);
                ts.lm_node(g, p);
                let k = plc(g, node_idx) - (g.fst)(p);
                ts.lm_child(g, p, k);
                assert forall|j: int| 0 <= j < ts.n(p) implies (#[trigger] self.in_nodes@[p].children@[j]).arena == aix(g, hgt(g, node_idx), (g.fst)(p) + j) by {
                    assert(ts.nodes[p].ch[j].arena == aix(g, hgt(g, node_idx), (g.fst)(p) + j));
                }
                assert(self.in_nodes@[p].children@[k].arena == node_idx);
            }»
            match node_idx {
                ArenaIndex::Leaf(inner_node_idx) => {
                    let node = self.leaf_nodes.get(inner_node_idx).unwrap();
                    let parent = self.in_nodes.get(node.parent).unwrap();
                    let index = Self::get_leaf_slot(inner_node_idx, parent);
                    «proof { ts.lm_up_push(path@, ArenaIndex::Internal(p), Idx { arena: node_idx, arr: index as u8 }); }»
                    path.push(Idx::new(node_idx, index as u8)).unwrap();
                    node_idx = ArenaIndex::Internal(node.parent);
                }
                ArenaIndex::Internal(_) => {
                    let node = self.get_internal(node_idx);
                    «proof { ts.lm_up_push(path@, ArenaIndex::Internal(p), Idx { arena: node_idx, arr: node.parent_slot }); }»
                    path.push(Idx::new(node_idx, node.parent_slot)).unwrap();
                    node_idx = node.parent.unwrap();
                }
            }
        }
        «proof { ts.lm_root(g); ts.lm_up_done(path@, Idx { arena: self.root, arr: 0 }); }»
        path.push(Idx::new(self.root, 0)).unwrap();
        path.reverse();
        path
    }
//@ end
//@ code src/lib.rs "BTree::next_sibling" tags=C10,C11
    fn next_sibling(&self, path: &mut [Idx]) -> «(r:» bool«)
        requires self.ks().shape(self.g@), self.ks().path_ok(old(path)@)
        ensures ({
            let a = old(path)@.last().arena;
            &&& final(path)@.len() == old(path)@.len()
            &&& r == (plc(self.g@, a) + 1 < self.g@.lv[hgt(self.g@, a)].len())
            &&& r ==> self.ks().path_ok(final(path)@) && plc(self.g@, final(path)@.last().arena) == plc(self.g@, a) + 1
            &&& !r ==> final(path)@ == old(path)@
        })
        decreases old(path)@.len()»
    {
        «let ghost ts = self.ks();
        let ghost g = self.g@;
        let ghost p = path@;
        proof { self.lm_ts(); ts.lm_root(g); ts.lm_path(g, p, p.len() - 1); }»
        if path.len() <= 1 {
            return false;
        }

        let depth = path.len();
        let parent_idx = path[depth - 2];
        let this_idx = path[depth - 1];
        «let ghost q = parent_idx.arena.ix();
        let ghost p1 = p.subrange(0, p.len() - 1);
        proof {
            ts.lm_path(g, p, p.len() - 2);
            assert(ts.step_ok(p, p.len() - 2));
            ts.lm_path_cut(p, p.len() - 1);
            ts.lm_node(g, q);
            ts.lm_child(g, q, this_idx.arr as int);
            if this_idx.arr + 1 < ts.n(q) { ts.lm_child(g, q, this_idx.arr + 1); }
            if (g.pos)(q) + 1 < g.lv[(g.ht)(q)].len() { ts.lm_next(g, q); }
        }»
        let parent = self.get_internal(parent_idx.arena);
        match parent.children.get(this_idx.arr as usize + 1) {
            Some(next) => {
                path[depth - 1] = Idx::new(next.arena, this_idx.arr + 1);
                «proof { ts.lm_path_push(p1, path@.last()); assert(path@ == p1.push(path@.last())); }»
            }
            None => {
                if !self.next_sibling(vx_upto_mut(path, depth - 1)) {
                    «proof { assert(path@ == p); }»
                    return false;
                }

                «let ghost p2 = path@.subrange(0, p.len() - 1);
                let ghost q2 = p2.last().arena.ix();
                proof {
                    ts.lm_path(g, p2, p2.len() - 1);
                    ts.lm_node(g, q2);
                    ts.lm_child(g, q2, 0);
                }»
                let parent = self.get_internal(path[depth - 2].arena);
                path[depth - 1] = Idx::new(parent.children[0].arena, 0);
                «proof { ts.lm_path_push(p2, path@.last()); assert(path@ == p2.push(path@.last())); }»
            }
        }

        true
    }
//@ end
//@ code src/lib.rs "BTree::first_path" tags=C10,C11
    fn first_path(&self) -> «(r:» Option<NodePath>«)
        requires self.ts().shape(self.g@), self.g@.lv.len() <= 16
        ensures
            r is None == (self.order().len() == 0),
            r is Some ==> self.ts().path_ok(r->0@) && r->0@.len() == self.g@.lv.len() && r->0@.last().arena == ArenaIndex::Leaf(self.order()[0])»
    {
        «let ghost ts = self.ts();
        let ghost g = self.g@;
        proof { self.lm_ts(); ts.lm_root(g); self.lm_empty(); }»
        let mut index = self.root;
        let mut node = self.in_nodes.get(index.unwrap_internal()).unwrap();
        if node.is_empty() {
            return None;
        }

        let mut path = NodePath::new();
        loop
            «invariant_except_break
                path@.len() == g.lv.len() - 1 - hgt(g, index),
                ts.path_ok(path@.push(Idx { arena: index, arr: 0 })),
            invariant
                ts == self.ts(), g == self.g@, ts.shape(g), g.lv.len() <= 16, ts.has(index), plc(g, index) == 0,
                index is Internal ==> *node == self.in_nodes@[index.ix()] && ts.n(index.ix()) > 0,
            ensures ts.path_ok(path@), path@.len() == g.lv.len(), path@.last().arena is Leaf, plc(g, path@.last().arena) == 0, ts.has(path@.last().arena),
            decreases hgt(g, index)»
        {
            «proof {
                self.lm_ts();
                match index { ArenaIndex::Leaf(l) => { ts.lm_leaf(g, l); } ArenaIndex::Internal(n) => { ts.lm_node(g, n); ts.lm_child(g, n, 0); } }
            }»
            path.push(Idx::new(index, 0)).unwrap();
            match index {
                ArenaIndex::Leaf(_) => {
                    break;
                }
                ArenaIndex::Internal(_) => {
                    index = node.children[0].arena;
                    «proof { ts.lm_path_push(path@, Idx { arena: index, arr: 0 }); if index is Internal { ts.lm_node(g, index.ix()); } }»
                    if let ArenaIndex::Internal(i) = index {
                        node = self.in_nodes.get(i).unwrap();
                    };
                }
            }
        }

        «proof { ts.lm_leaf(g, path@.last().arena.ix()); }»
        Some(path)
    }
//@ end
//@ code src/lib.rs "BTree::last_path" tags=C10
    fn last_path(&self) -> «(r:» Option<NodePath>«)
        requires self.ts().shape(self.g@), self.g@.lv.len() <= 16
        ensures
            r is None == (self.order().len() == 0),
            r is Some ==> self.ts().path_ok(r->0@) && r->0@.len() == self.g@.lv.len() && r->0@.last().arena == ArenaIndex::Leaf(self.order().last())»
    {
        «let ghost ts = self.ts();
        let ghost g = self.g@;
        proof { self.lm_ts(); ts.lm_root(g); self.lm_empty(); }»
        let mut path = NodePath::new();
        let mut index = self.root;
        let mut node = self.in_nodes.get(index.unwrap_internal()).unwrap();
        let mut pos_in_parent = 0;
        if node.is_empty() {
            return None;
        }

        loop
            «invariant_except_break
                path@.len() == g.lv.len() - 1 - hgt(g, index),
                ts.path_ok(path@.push(Idx { arena: index, arr: pos_in_parent })),
            invariant
                ts == self.ts(), g == self.g@, ts.shape(g), g.lv.len() <= 16, ts.has(index), plc(g, index) == g.lv[hgt(g, index)].len() - 1,
                index is Internal ==> *node == self.in_nodes@[index.ix()] && ts.n(index.ix()) > 0,
            ensures ts.path_ok(path@), path@.len() == g.lv.len(), path@.last().arena is Leaf,
                plc(g, path@.last().arena) == g.lv[0].len() - 1, ts.has(path@.last().arena),
            decreases hgt(g, index)»
        {
            «proof {
                self.lm_ts();
                match index { ArenaIndex::Leaf(l) => { ts.lm_leaf(g, l); } ArenaIndex::Internal(n) => { ts.lm_node(g, n); ts.lm_child(g, n, ts.n(n) - 1); } }
            }»
            path.push(Idx::new(index, pos_in_parent)).unwrap();
            match index {
                ArenaIndex::Leaf(_) => {
                    break;
                }
                ArenaIndex::Internal(_) => {
                    pos_in_parent = node.children.len() as u8 - 1;
                    index = node.children[node.children.len() - 1].arena;
                    «proof { ts.lm_path_push(path@, Idx { arena: index, arr: pos_in_parent }); if index is Internal { ts.lm_node(g, index.ix()); } }»
                    if let ArenaIndex::Internal(i) = index {
                        node = self.in_nodes.get(i).unwrap();
                    }
                }
            }
        }

        «proof { ts.lm_leaf(g, path@.last().arena.ix()); }»
        Some(path)
    }
//@ end
//@ code src/lib.rs "BTree::prefer_left" tags=C10,C16
    fn prefer_left(&self, path: Cursor) -> «(r:» Option<Cursor>«)
        requires self.ts().shape(self.g@), self.ts().elems_ok(), self.has(path.leaf)
        ensures
            path.offset != 0 ==> r == Some(path),
            path.offset == 0 ==> r is Some == (self.at(path.leaf) > 0),
            path.offset == 0 && self.at(path.leaf) > 0 ==> r->0.leaf == LeafIndex(self.order()[self.at(path.leaf) - 1])
                && r->0.offset == self.ts().elen(self.g@, self.at(path.leaf) - 1)»
    {
        if path.offset != 0 {
            return Some(path);
        }

        let elem = self.prev_elem(path);
        if let Some(elem) = elem {
            «proof { self.ts().lm_elems_ok(elem.leaf.0); }»
            let leaf = self.leaf_nodes.get(elem.leaf.0).unwrap();
            Some(Cursor {
                leaf: elem.leaf,
                offset: leaf.elem.rle_len(),
            })
        } else {
            None
        }
    }
//@ end
//@ code src/lib.rs "BTree::prefer_right" tags=C10,C16
    fn prefer_right(&self, path: Cursor) -> «(r:» Option<Cursor>«)
        requires self.ts().shape(self.g@), self.ts().elems_ok(), self.has(path.leaf)
        ensures r == (if path.offset == 0 || path.offset != self.leaf_nodes@[path.leaf.0].elem.content().len() { Some(path) }
            else if self.at(path.leaf) + 1 < self.order().len() {
                Some(Cursor { leaf: LeafIndex(self.order()[self.at(path.leaf) + 1]), offset: 0 })
            } else { None::<Cursor> })»
    {
        if path.offset == 0 {
            return Some(path);
        }

        «proof { self.ts().lm_elems_ok(path.leaf.0); }»
        let leaf = self.leaf_nodes.get(path.leaf.0).unwrap();
        if path.offset == leaf.elem.rle_len() {
            self.next_elem(path)
        } else {
            Some(path)
        }
    }
//@ end
//@ code src/lib.rs "BTree::start_cursor" tags=C10,C16
    fn start_cursor(&self) -> «(r:» Option<Cursor>«)
        requires self.ts().shape(self.g@)
        ensures r == (if self.order().len() > 0 { Some(Cursor { leaf: LeafIndex(self.order()[0]), offset: 0 }) } else { None::<Cursor> })»
    {
        Some(Cursor {
            leaf: self.first_leaf()?,
            offset: 0,
        })
    }
//@ end
//@ code src/lib.rs "BTree::end_cursor" tags=C10,C16
    fn end_cursor(&self) -> «(r:» Option<Cursor>«)
        requires self.ts().shape(self.g@), self.ts().elems_ok()
        ensures r is Some == (self.order().len() > 0),
            r is Some ==> r->0.leaf == LeafIndex(self.order().last()) && r->0.offset == self.ts().elen(self.g@, self.order().len() - 1)»
    {
        let leaf = self.last_leaf()?;
        «proof { self.ts().lm_elems_ok(leaf.0); self.lm_ts(); }»
        let node = self.get_leaf(leaf.into());
        Some(Cursor {
            leaf,
            offset: node.elem.rle_len(),
        })
    }
//@ end
//@ code src/lib.rs "BTree::depth" tags=C16
    fn depth(&self) -> «(r:» usize«)
        requires self.ts().shape(self.g@), self.g@.lv.len() <= 16
        ensures r == self.g@.lv.len() - 1»
    {
        «let ghost ts = self.ts();
        let ghost g = self.g@;
        let ghost mut m = ts.rt();
        proof { self.lm_ts(); ts.lm_root(g); self.lm_empty(); }»
        let mut depth = 0;
        let mut index = self.root;
        let mut node = self.in_nodes.get(index.unwrap_internal()).unwrap();
        «#[verifier::loop_isolation(false)]»
        loop
            «invariant
                ts.nodes.contains_key(m), *node == self.in_nodes@[m], depth == g.lv.len() - 1 - (g.ht)(m), m != ts.rt() ==> ts.n(m) > 0,
                ts.n(m) == 0 ==> g.lv.len() == 2,
            decreases (g.ht)(m)»
        {
            «proof { self.lm_ts(); ts.lm_node(g, m); if ts.n(m) > 0 { ts.lm_child(g, m, 0); } }»
            depth += 1;
            let Some(child) = node.children.first() else {
                return depth;
            };
            index = child.arena;
            match index {
                ArenaIndex::Leaf(_) => return depth,
                ArenaIndex::Internal(index) => {
                    «proof { m = index; ts.lm_node(g, m); }»
                    node = self.in_nodes.get(index).unwrap();
                }
            }
        }
    }
//@ end
}
