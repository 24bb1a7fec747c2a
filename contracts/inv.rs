// The ghost picture of a tree and the invariants (C04 shape, C05 caches).
// lv[0] lists the leaves in order, lv[h] the internal nodes of height h in order, lv.last() is the root alone.
struct G {
    lv: Seq<Seq<RawArenaIndex>>,
    ht: spec_fn(RawArenaIndex) -> int,     // height of an internal node
    pos: spec_fn(RawArenaIndex) -> int,    // its place in lv[height]
    fst: spec_fn(RawArenaIndex) -> int,    // the place of its first child in lv[height - 1]
    lpos: spec_fn(RawArenaIndex) -> int,   // place of a leaf in lv[0]
}
struct NodeS<B: BTreeTrait> { par: Option<ArenaIndex>, slot: u8, ch: Seq<Child<B>> }
struct TS<B: BTreeTrait> {
    nodes: Map<RawArenaIndex, NodeS<B>>,
    leaves: Map<RawArenaIndex, LeafNode<B::Elem>>,
    root: ArenaIndex,
}
spec fn ns<B: BTreeTrait>(n: Node<B>) -> NodeS<B> { NodeS { par: n.parent, slot: n.parent_slot, ch: n.children@ } }
impl<B: BTreeTrait> BTree<B> {
    spec fn ts(&self) -> TS<B> {
        TS { nodes: self.in_nodes@.map_values(|n: Node<B>| ns(n)), leaves: self.leaf_nodes@, root: self.root }
    }
    // the tree without leaves that are allocated but not put into it yet
    spec fn tidy(&self) -> TS<B> {
        TS { nodes: self.ts().nodes, leaves: self.leaf_nodes@.restrict(self.g@.lv[0].to_set()), root: self.root }
    }
    spec fn vs(&self) -> TS<B> { if self.ts().shape(self.g@) { self.ts() } else { self.tidy() } }
}
// the i-th node or leaf of height h
spec fn aix(g: G, h: int, i: int) -> ArenaIndex {
    if h == 0 { ArenaIndex::Leaf(g.lv[0][i]) } else { ArenaIndex::Internal(g.lv[h][i]) }
}
spec fn hgt(g: G, a: ArenaIndex) -> int { match a { ArenaIndex::Leaf(l) => 0, ArenaIndex::Internal(n) => (g.ht)(n) } }
spec fn plc(g: G, a: ArenaIndex) -> int { match a { ArenaIndex::Leaf(l) => (g.lpos)(l), ArenaIndex::Internal(n) => (g.pos)(n) } }

impl<B: BTreeTrait> TS<B> {
    spec fn rt(self) -> RawArenaIndex { self.root.ix() }
    spec fn n(self, i: RawArenaIndex) -> int { self.nodes[i].ch.len() as int }
    spec fn has(self, a: ArenaIndex) -> bool {
        match a { ArenaIndex::Leaf(l) => self.leaves.contains_key(l), ArenaIndex::Internal(n) => self.nodes.contains_key(n) }
    }
    spec fn par(self, a: ArenaIndex) -> RawArenaIndex {
        match a { ArenaIndex::Leaf(l) => self.leaves[l].parent, ArenaIndex::Internal(n) => self.nodes[n].par->0.ix() }
    }
    spec fn kids(self, m: RawArenaIndex) -> Seq<B::Cache> { cch(self.nodes[m].ch) }
    // the true summary of a node or leaf, given the caches stored in it
    spec fn kc(self, a: ArenaIndex) -> B::Cache {
        match a { ArenaIndex::Leaf(l) => B::ec(self.leaves[l].elem), ArenaIndex::Internal(n) => B::sum(self.kids(n)) }
    }

    // The tables and the arenas hold the same nodes, the children of the nodes of one level are the next level in order,
    // and every node names its parent and slot.
    spec fn lvl_ok(self, g: G, h: int, i: int) -> bool {
        1 <= h < g.lv.len() && 0 <= i < g.lv[h].len() ==> {
            let m = g.lv[h][i];
            self.nodes.contains_key(m) && (g.ht)(m) == h && (g.pos)(m) == i
        }
    }
    spec fn lfl_ok(self, g: G, i: int) -> bool {
        0 <= i < g.lv[0].len() ==> self.leaves.contains_key(g.lv[0][i]) && (g.lpos)(g.lv[0][i]) == i
    }
    spec fn place_ok(self, g: G, m: RawArenaIndex) -> bool {
        &&& 1 <= (g.ht)(m) < g.lv.len()
        &&& 0 <= (g.pos)(m) < g.lv[(g.ht)(m)].len()
        &&& g.lv[(g.ht)(m)][(g.pos)(m)] == m
    }
    spec fn cover_ok(self, g: G, m: RawArenaIndex) -> bool {
        let h = (g.ht)(m);
        &&& 0 <= (g.fst)(m) && (g.fst)(m) + self.n(m) <= g.lv[h - 1].len()
        &&& ((g.pos)(m) == 0 ==> (g.fst)(m) == 0)
        &&& ((g.pos)(m) + 1 == g.lv[h].len() ==> (g.fst)(m) + self.n(m) == g.lv[h - 1].len())
        &&& ((g.pos)(m) + 1 < g.lv[h].len() ==> (g.fst)(g.lv[h][(g.pos)(m) + 1]) == (g.fst)(m) + self.n(m))
    }
    spec fn kids_ok(self, g: G, m: RawArenaIndex) -> bool {
        forall|k: int| 0 <= k < self.n(m) ==> (#[trigger] self.nodes[m].ch[k]).arena == aix(g, (g.ht)(m) - 1, (g.fst)(m) + k)
    }
    spec fn link_ok(self, g: G, m: RawArenaIndex) -> bool {
        if m == self.rt() { self.nodes[m].par is None } else {
            let p = self.nodes[m].par->0.ix();
            &&& self.nodes[m].par == Some(ArenaIndex::Internal(p))
            &&& self.nodes.contains_key(p) && (g.ht)(p) == (g.ht)(m) + 1
            &&& self.nodes[m].slot < self.n(p) && (g.fst)(p) + self.nodes[m].slot == (g.pos)(m)
        }
    }
    spec fn node_ok(self, g: G, m: RawArenaIndex) -> bool {
        self.nodes.contains_key(m) ==> self.place_ok(g, m) && self.cover_ok(g, m) && self.kids_ok(g, m) && self.link_ok(g, m)
            && self.n(m) <= MAX_CHILDREN_NUM
    }
    // only the root of a tree of one level may be without children
    spec fn size_ok(self, g: G, m: RawArenaIndex) -> bool {
        self.nodes.contains_key(m) ==> (m == self.rt() && g.lv.len() == 2) || self.n(m) > 0
    }
    spec fn leaf_ok(self, g: G, l: RawArenaIndex) -> bool {
        self.leaves.contains_key(l) ==> {
            let p = self.leaves[l].parent;
            &&& 0 <= (g.lpos)(l) < g.lv[0].len() && g.lv[0][(g.lpos)(l)] == l
            &&& self.nodes.contains_key(p) && (g.ht)(p) == 1 && (g.fst)(p) <= (g.lpos)(l) < (g.fst)(p) + self.n(p)
        }
    }
    spec fn top_ok(self, g: G) -> bool {
        &&& g.lv.len() >= 2
        &&& self.root == ArenaIndex::Internal(self.rt())
        &&& g.lv.last() == seq![self.rt()]
    }
    // the tree without the demand that every node has a child
    #[verifier::opaque]
    spec fn lnk(self, g: G) -> bool {
        &&& self.top_ok(g)
        &&& forall|h: int, i: int| #[trigger] self.lvl_ok(g, h, i)
        &&& forall|i: int| #[trigger] self.lfl_ok(g, i)
        &&& forall|m: RawArenaIndex| #[trigger] self.node_ok(g, m)
        &&& forall|l: RawArenaIndex| #[trigger] self.leaf_ok(g, l)
    }
    #[verifier::opaque]
    spec fn sized(self, g: G) -> bool { forall|m: RawArenaIndex| #[trigger] self.size_ok(g, m) }
    spec fn shape(self, g: G) -> bool { self.lnk(g) && self.sized(g) }
    // Insertion and removal leave no node with a single child, except a lone root. Not an invariant
    // of every operation.
    spec fn fat_ok(self, g: G, m: RawArenaIndex) -> bool {
        self.nodes.contains_key(m) ==> if m == self.rt() { g.lv.len() == 2 || self.n(m) >= 2 } else { self.n(m) >= 2 }
    }
    #[verifier::opaque]
    spec fn fat(self, g: G) -> bool { forall|m: RawArenaIndex| #[trigger] self.fat_ok(g, m) }
    // m has lost one child
    #[verifier::opaque]
    spec fn fat_but(self, g: G, m: RawArenaIndex) -> bool {
        &&& forall|y: RawArenaIndex| y != m ==> #[trigger] self.fat_ok(g, y)
        &&& if m == self.rt() { g.lv.len() == 2 || self.n(m) >= 1 } else { self.n(m) >= 1 }
    }
    proof fn lm_fat(self, g: G, m: RawArenaIndex)
        requires self.fat(g), self.nodes.contains_key(m)
        ensures self.fat_but(g, m), self.fat_ok(g, m)
    {
        reveal(TS::fat); reveal(TS::fat_but);
        assert(self.fat_ok(g, m));
        assert forall|y: RawArenaIndex| #[trigger] self.fat_ok(g, y) by { assert(self.fat_ok(g, y)); }
    }
    proof fn lm_fat_but(self, g: G, m: RawArenaIndex, y: RawArenaIndex)
        requires self.fat_but(g, m), self.nodes.contains_key(y)
        ensures y != m ==> self.fat_ok(g, y), self.fat_ok(g, m) ==> self.fat(g), m != self.rt() ==> self.n(m) >= 1, m == self.rt() && g.lv.len() != 2 ==> self.n(m) >= 1
    {
        reveal(TS::fat); reveal(TS::fat_but);
        if self.fat_ok(g, m) { assert forall|y: RawArenaIndex| #[trigger] self.fat_ok(g, y) by { if y != m { assert(self.fat_ok(g, y)); } } }
    }
    // no node is full between operations
    spec fn roomy(self, m: RawArenaIndex) -> bool { self.nodes.contains_key(m) ==> self.n(m) < MAX_CHILDREN_NUM }
    #[verifier::opaque]
    spec fn not_full(self) -> bool { forall|m: RawArenaIndex| #[trigger] self.roomy(m) }
    spec fn elem_ok(self, l: RawArenaIndex) -> bool { self.leaves.contains_key(l) ==> self.leaves[l].elem.ok() }
    #[verifier::opaque]
    spec fn elems_ok(self) -> bool { forall|l: RawArenaIndex| #[trigger] self.elem_ok(l) }

    proof fn lm_elems_ok(self, l: RawArenaIndex)
        requires self.elems_ok(), self.leaves.contains_key(l)
        ensures self.leaves[l].elem.ok()
    { reveal(TS::elems_ok); assert(self.elem_ok(l)); }
    spec fn elen(self, g: G, i: int) -> int { self.leaves[g.lv[0][i]].elem.content().len() as int }
    // every entry of a node carries the summary of the subtree it stands for
    spec fn cache_ok(self, m: RawArenaIndex) -> bool {
        self.nodes.contains_key(m) ==> forall|k: int| 0 <= k < self.n(m) ==> {
            let c = #[trigger] self.nodes[m].ch[k];
            B::cok(c.cache) && c.cache == self.kc(c.arena)
        }
    }
    #[verifier::opaque]
    spec fn caches_ok(self) -> bool { forall|m: RawArenaIndex| #[trigger] self.cache_ok(m) }
    spec fn root_cache_ok(self, c: B::Cache) -> bool { self.n(self.rt()) > 0 || B::exact0() ==> c == self.kc(self.root) }

    // ---- what shape says about one node
    proof fn lm_root(self, g: G)
        requires self.lnk(g)
        ensures self.top_ok(g), self.nodes.contains_key(self.rt()), self.node_ok(g, self.rt()),
            (g.ht)(self.rt()) == g.lv.len() - 1, (g.pos)(self.rt()) == 0, (g.fst)(self.rt()) == 0,
            self.n(self.rt()) == g.lv[g.lv.len() - 2].len(),
    {
        reveal(TS::lnk);
        assert(self.lvl_ok(g, g.lv.len() - 1, 0));
        assert(g.lv[g.lv.len() - 1][0] == self.rt());
        assert(self.node_ok(g, self.rt()));
    }
    proof fn lm_node(self, g: G, m: RawArenaIndex)
        requires self.lnk(g), self.nodes.contains_key(m)
        ensures self.node_ok(g, m), self.sized(g) ==> self.size_ok(g, m), self.top_ok(g), (m == self.rt()) == ((g.ht)(m) == g.lv.len() - 1)
    {
        reveal(TS::lnk);
        reveal(TS::sized);
        assert(self.node_ok(g, m));
        if self.sized(g) { assert(self.size_ok(g, m)); }
        self.lm_root(g);
    }
    proof fn lm_size(self, g: G, m: RawArenaIndex)
        requires self.shape(g), self.nodes.contains_key(m)
        ensures m == self.rt() && g.lv.len() == 2 || self.n(m) > 0
    { reveal(TS::sized); assert(self.size_ok(g, m)); }
    proof fn lm_leaf(self, g: G, l: RawArenaIndex)
        requires self.lnk(g), self.leaves.contains_key(l)
        ensures self.leaf_ok(g, l), self.top_ok(g)
    { reveal(TS::lnk); assert(self.leaf_ok(g, l)); }
    proof fn lm_at(self, g: G, h: int, i: int)
        requires self.lnk(g), 0 <= h < g.lv.len(), 0 <= i < g.lv[h].len()
        ensures self.has(aix(g, h, i)), hgt(g, aix(g, h, i)) == h, plc(g, aix(g, h, i)) == i
    { reveal(TS::lnk); assert(self.lvl_ok(g, h, i)); assert(self.lfl_ok(g, i)); }
    // the k-th child of m
    proof fn lm_child(self, g: G, m: RawArenaIndex, k: int)
        requires self.lnk(g), self.nodes.contains_key(m), 0 <= k < self.n(m)
        ensures ({
            let a = self.nodes[m].ch[k].arena;
            &&& a == aix(g, (g.ht)(m) - 1, (g.fst)(m) + k)
            &&& self.has(a) && hgt(g, a) == (g.ht)(m) - 1 && plc(g, a) == (g.fst)(m) + k
            &&& (a is Leaf) == ((g.ht)(m) == 1)
            &&& a != self.root
            &&& self.par(a) == m
            &&& a is Internal ==> self.nodes[a.ix()].slot == k
        })
    {
        self.lm_node(g, m);
        let a = self.nodes[m].ch[k].arena;
        self.lm_at(g, (g.ht)(m) - 1, (g.fst)(m) + k);
        self.lm_root(g);
        self.lm_par(g, a);
        let p = self.par(a);
        if p != m {
            self.lm_node(g, p);
            if (g.pos)(p) < (g.pos)(m) { self.lm_order(g, p, m); } else { self.lm_order(g, m, p); }
        }
    }
    // the parent of a
    proof fn lm_par(self, g: G, a: ArenaIndex)
        requires self.lnk(g), self.has(a), a != self.root
        ensures ({
            let p = self.par(a);
            &&& self.nodes.contains_key(p) && (g.ht)(p) == hgt(g, a) + 1 && hgt(g, a) + 1 < g.lv.len()
            &&& (g.fst)(p) <= plc(g, a) < (g.fst)(p) + self.n(p)
            &&& self.nodes[p].ch[plc(g, a) - (g.fst)(p)].arena == a
            &&& a is Internal ==> self.nodes[a.ix()].slot == plc(g, a) - (g.fst)(p) && self.nodes[a.ix()].par == Some(ArenaIndex::Internal(p))
            &&& plc(g, a) < g.lv[hgt(g, a)].len()
        })
    {
        let p = self.par(a);
        self.lm_root(g);
        match a {
            ArenaIndex::Leaf(l) => { self.lm_leaf(g, l); }
            ArenaIndex::Internal(n) => { self.lm_node(g, n); }
        }
        self.lm_node(g, p);
        let k = plc(g, a) - (g.fst)(p);
        assert(self.nodes[p].ch[k].arena == aix(g, (g.ht)(p) - 1, (g.fst)(p) + k));
    }
    // of two nodes of one height the children of the first all come before those of the second
    proof fn lm_order(self, g: G, p: RawArenaIndex, q: RawArenaIndex)
        requires self.lnk(g), self.nodes.contains_key(p), self.nodes.contains_key(q), (g.ht)(p) == (g.ht)(q), (g.pos)(p) <= (g.pos)(q)
        ensures (g.pos)(p) < (g.pos)(q) ==> (g.fst)(p) + self.n(p) <= (g.fst)(q), (g.pos)(p) == (g.pos)(q) ==> p == q
        decreases (g.pos)(q) - (g.pos)(p)
    {
        self.lm_node(g, p);
        self.lm_node(g, q);
        if (g.pos)(p) < (g.pos)(q) {
            let r = g.lv[(g.ht)(p)][(g.pos)(p) + 1];
            self.lm_at(g, (g.ht)(p), (g.pos)(p) + 1);
            self.lm_order(g, r, q);
        }
    }
    // the node after m on its level
    proof fn lm_next(self, g: G, m: RawArenaIndex)
        requires self.shape(g), self.nodes.contains_key(m), (g.pos)(m) + 1 < g.lv[(g.ht)(m)].len()
        ensures ({
            let r = g.lv[(g.ht)(m)][(g.pos)(m) + 1];
            &&& self.nodes.contains_key(r) && (g.ht)(r) == (g.ht)(m) && (g.pos)(r) == (g.pos)(m) + 1
            &&& (g.fst)(r) == (g.fst)(m) + self.n(m) && self.n(r) > 0
        })
    {
        self.lm_node(g, m);
        let r = g.lv[(g.ht)(m)][(g.pos)(m) + 1];
        self.lm_at(g, (g.ht)(m), (g.pos)(m) + 1);
        self.lm_node(g, r);
    }
    proof fn lm_prev(self, g: G, m: RawArenaIndex)
        requires self.shape(g), self.nodes.contains_key(m), (g.pos)(m) > 0
        ensures ({
            let r = g.lv[(g.ht)(m)][(g.pos)(m) - 1];
            &&& self.nodes.contains_key(r) && (g.ht)(r) == (g.ht)(m) && (g.pos)(r) == (g.pos)(m) - 1
            &&& (g.fst)(m) == (g.fst)(r) + self.n(r) && self.n(r) > 0
        })
    {
        self.lm_node(g, m);
        let r = g.lv[(g.ht)(m)][(g.pos)(m) - 1];
        self.lm_at(g, (g.ht)(m), (g.pos)(m) - 1);
        self.lm_node(g, r);
    }
}
impl<B: BTreeTrait> BTree<B> {
    // what every public operation may rely on and has to re-establish
    spec fn wf(&self) -> bool {
        self.ts().shape(self.g@) && self.ts().not_full() && self.ts().elems_ok()
    }
    spec fn order(&self) -> Seq<RawArenaIndex> { self.g@.lv[0] }
    spec fn has(&self, l: LeafIndex) -> bool { self.leaf_nodes@.contains_key(l.0) }
    spec fn at(&self, l: LeafIndex) -> int { (self.g@.lpos)(l.0) }
    // a cursor the caller may pass
    spec fn valid(&self, c: Cursor) -> bool {
        self.has(c.leaf) && c.offset <= self.leaf_nodes@[c.leaf.0].elem.content().len()
    }
    proof fn lm_ts(&self)
        ensures
            forall|m: RawArenaIndex| #![trigger self.ts().nodes.contains_key(m)] #![trigger self.in_nodes@.contains_key(m)]
                self.ts().nodes.contains_key(m) == self.in_nodes@.contains_key(m),
            forall|m: RawArenaIndex| self.in_nodes@.contains_key(m) ==> #[trigger] self.ts().nodes[m] == ns(self.in_nodes@[m]),
    {}
}
impl<B: BTreeTrait> BTree<B> {
    // a tree without leaves is a lone root
    proof fn lm_empty(&self)
        requires self.ts().shape(self.g@)
        ensures (self.order().len() == 0) == (self.ts().n(self.ts().rt()) == 0), self.order().len() == 0 ==> self.g@.lv.len() == 2
    {
        self.ts().lm_root(self.g@);
        self.ts().lm_node(self.g@, self.ts().rt());
        if self.order().len() == 0 { self.ts().lm_lone(self.g@, self.g@.lv.len() - 2);}
    }
}
impl<B: BTreeTrait> TS<B> {
    // every level below a non-empty one is non-empty
    proof fn lm_lone(self, g: G, h: int)
        requires self.shape(g), 0 <= h <= g.lv.len() - 2, g.lv[0].len() == 0
        ensures g.lv[h].len() == 0
        decreases h
    {
        self.lm_root(g);
        if h > 0 {
            self.lm_lone(g, h - 1);
            if g.lv[h].len() > 0 {
                let m = g.lv[h][0];
                self.lm_at(g, h, 0);
                self.lm_node(g, m);
            }
        }
    }
}
