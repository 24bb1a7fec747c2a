// new, default, clear, node_len, clone. (C04, C05, C15, C16)
// a platform of 64 bits
global size_of usize == 8;
//@ rw self.children.clone() ==> vx_clone(&self.children)
//@ rw self.in_nodes.clone() ==> vx_clone(&self.in_nodes)
//@ rw self.leaf_nodes.clone() ==> vx_clone(&self.leaf_nodes)
//@ rw self.cache.clone() ==> vx_clone(&self.cache)
//@ rw self.root_cache.clone() ==> vx_clone(&self.root_cache)
spec fn g_new(r: RawArenaIndex) -> G {
    G {
        lv: seq![Seq::<RawArenaIndex>::empty(), seq![r]],
        ht: |m: RawArenaIndex| 1int,
        pos: |m: RawArenaIndex| 0int,
        fst: |m: RawArenaIndex| 0int,
        lpos: |m: RawArenaIndex| 0int,
    }
}
impl<B: BTreeTrait> BTree<B> {
    // a tree without anything in it
    spec fn fresh(&self) -> bool {
        &&& self.inv() && self.order().len() == 0 && self.all().len() == 0
        &&& self.root_cache == B::c0()
        &&& self.leaf_nodes@ == Map::<RawArenaIndex, LeafNode<B::Elem>>::empty()
        &&& self.in_nodes@.dom() == set![self.root.ix()] && self.ts().n(self.root.ix()) == 0
        &&& self.leaf_nodes.used() == Set::<RawArenaIndex>::empty()
    }
    proof fn lm_fresh(&self, r: RawArenaIndex, x: Node<B>)
        requires self.root == ArenaIndex::Internal(r), self.g@ == g_new(r), self.root_cache == B::c0(),
            self.leaf_nodes@ == Map::<RawArenaIndex, LeafNode<B::Elem>>::empty(), self.leaf_nodes.used() == Set::<RawArenaIndex>::empty(),
            self.in_nodes@ == Map::<RawArenaIndex, Node<B>>::empty().insert(r, x), x.parent is None, x.children@ == Seq::<Child<B>>::empty()
        ensures self.fresh()
    {
        let t = self.ts();
        let g = self.g@;
        self.lm_ts();
        reveal(TS::lnk); reveal(TS::sized); reveal(TS::not_full); reveal(TS::elems_ok); reveal(TS::caches_ok);
        assert(self.in_nodes@.dom() =~= set![r]);
        assert(t.nodes[r] == ns(x));
        assert(g.lv.last() =~= seq![t.rt()]);
        assert forall|m: RawArenaIndex| #[trigger] t.node_ok(g, m) by {}
        assert(t.top_ok(g));
        assert(self.items() =~= Seq::<Seq<<B::Elem as HasLength>::Unit>>::empty());
        B::law_c0();
        assert(t.kids(r) =~= Seq::<B::Cache>::empty());
    }
}
impl<B: BTreeTrait> Node<B> {
//@ code src/lib.rs "Default for Node::default" tags=C15
    fn default() -> «(r:» Self«)
        ensures ns(r) == (NodeS { par: None, slot: 255, ch: Seq::<Child<B>>::empty() })»
    {
        Self::new()
    }
//@ end
//@ code src/lib.rs "Clone for Node::clone" tags=C15
    fn clone(&self) -> «(r:» Self«)
        ensures r == *self»
    {
        Self {
            parent: self.parent,
            parent_slot: self.parent_slot,
            children: vx_clone(&self.children),
        }
    }
//@ end
}
impl<B: BTreeTrait> Child<B> {
//@ code src/lib.rs "Clone for Child::clone" tags=C15
    fn clone(&self) -> «(r:» Self«)
        ensures r == *self»
    {
        Self {
            arena: self.arena,
            cache: vx_clone(&self.cache),
        }
    }
//@ end
}
impl<B: BTreeTrait> BTree<B> {
//@ code src/lib.rs "BTree::new" tags=C15,C04,C05
    fn new() -> «(r:» Self«)
        ensures r.fresh(), /*C04*/ r.wf(), /*C05*/ r.root_cache == B::c0() && r.inv()»
    {
        let mut arena = Arena::new();
        let root = arena.insert(Node::new());
        «let ghost x = arena@[root];
        let r =» Self {
            in_nodes: arena,
            leaf_nodes: Arena::new(),
            root: ArenaIndex::Internal(root),
            root_cache: vx_cache0::<B>(),
            «g: Ghost(g_new(root)),»
        }«;
        proof { r.lm_fresh(root, x); }
        r»
    }
//@ end
//@ code src/lib.rs "Default for BTree::default" tags=C15
    fn default() -> «(r:» Self«)
        ensures r.fresh()»
    {
        Self::new()
    }
//@ end
//@ code src/lib.rs "BTree::clear" tags=C15,C04,C05
    fn clear(&mut self)«
        ensures final(self).fresh(), /*C04*/ final(self).wf(), /*C05*/ final(self).root_cache == B::c0() && final(self).inv()»
    {
        *self = Self::new();
    }
//@ end
//@ code src/lib.rs "BTree::node_len" tags=C15,C16
    fn node_len(&self) -> «(r:» usize«)
        ensures r == self.in_nodes@.dom().len() + self.leaf_nodes@.dom().len()»
    {
        self.in_nodes.len() + self.leaf_nodes.len()
    }
//@ end
//@ code src/lib.rs "Clone for BTree::clone" tags=C15
    fn clone(&self) -> «(r:» Self«)
        ensures r.in_nodes == self.in_nodes, r.leaf_nodes == self.leaf_nodes, r.root == self.root, r.root_cache == self.root_cache, r.g == self.g,
            self.inv() ==> r.inv() && r.all() == self.all()»
    {
        «let r =» Self {
            in_nodes: vx_clone(&self.in_nodes),
            leaf_nodes: vx_clone(&self.leaf_nodes),
            root: self.root,
            root_cache: vx_clone(&self.root_cache),
            «g: self.g,»
        }«;
        assert(r.ts() == self.ts());
        assert(r.items() =~= self.items());
        r»
    }
//@ end
}
