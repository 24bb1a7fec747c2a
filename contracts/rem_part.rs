// Taking leaves and nodes out of the tree, balancing what is left. (C04, C05, C07, C08, C16)
//@ rw for child in vx_take_vec(&mut $p_x.children) { ==> let vx_t = vx_take_vec(&mut $p_x.children); for vx_k in 0..vx_t.len() { let child = vx_clone(&vx_t[vx_k]);
//@ rw for child in &$p_x.children[..$k] { ==> for vx_k in 0..$k { let child = &$p_x.children[vx_k];
//@ rw for child in children { ==> for vx_k in 0..children.len() { let child = &children[vx_k];
//@ rw for x in node.children.iter() { ==> for vx_k in 0..node.children.len() { let x = &node.children[vx_k];
//@ rw for (child, (parent, slot)) in re_parent { ==> let vx_v = re_parent.vx_pairs(); for vx_k in 0..vx_v.len() { let (child, (parent, slot)) = vx_v[vx_k];
//@ rw cfg!(debug_assertions) ==> vx_any()
//@ rw child.clone() ==> vx_clone(child)
//@ rw FxHashMap::default() ==> FxHashMap::vx_new()
// A hash map is a map; going through it visits every key. (assumed)
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct FxHashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K, V> View for FxHashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> FxHashMap<K, V> {
    #[verifier::external_body]
    fn vx_new() -> (r: Self)
        ensures r@ == Map::<K, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V)
        ensures final(self)@ == old(self)@.insert(k, v)
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_pairs(self) -> (r: Vec<(K, V)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0) && self@[r@[i].0] == r@[i].1,
            forall|k: K| self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k
    { unimplemented!() }
}
// cfg!(debug_assertions), which may be either
#[verifier::external_body]
fn vx_any() -> (r: bool) { unimplemented!() }
// the entry at place i of level h taken out, from under p
spec fn g_del(g: G, h: int, i: int, p: RawArenaIndex) -> G {
    G {
        lv: g.lv.update(h, g.lv[h].remove(i)),
        ht: g.ht,
        pos: if h == 0 { g.pos } else { |y: RawArenaIndex| if (g.ht)(y) == h && (g.pos)(y) > i { (g.pos)(y) - 1 } else { (g.pos)(y) } },
        fst: |y: RawArenaIndex| if (g.ht)(y) == h + 1 && (g.pos)(y) > (g.pos)(p) { (g.fst)(y) - 1 } else { (g.fst)(y) },
        lpos: if h > 0 { g.lpos } else { |y: RawArenaIndex| if (g.lpos)(y) > i { (g.lpos)(y) - 1 } else { (g.lpos)(y) } },
    }
}
// b takes over what is behind place f
spec fn g_cut(g: G, b: RawArenaIndex, f: int) -> G { G { fst: |y: RawArenaIndex| if y == b { f } else { (g.fst)(y) }, ..g } }
// the only child of the root m took its place
spec fn g_hoist(g: G, m: RawArenaIndex) -> G {
    let h = g.lv.len() - 1;
    G {
        lv: g.lv.drop_last().update(h - 1, seq![m]),
        ht: |y: RawArenaIndex| if y == m { h - 1 } else { (g.ht)(y) },
        pos: |y: RawArenaIndex| if y == m { 0 } else { (g.pos)(y) },
        fst: |y: RawArenaIndex| if y == m { 0 } else { (g.fst)(y) },
        lpos: g.lpos,
    }
}
// the tree without leaves
spec fn g_flat(g: G, m: RawArenaIndex) -> G {
    G { lv: seq![Seq::empty(), seq![m]], ht: |y: RawArenaIndex| 1, pos: |y: RawArenaIndex| 0, fst: |y: RawArenaIndex| 0, lpos: g.lpos }
}
impl<B: BTreeTrait> TS<B> {
    #[verifier::opaque]
    spec fn sized_but(self, g: G, m: RawArenaIndex) -> bool { forall|y: RawArenaIndex| y != m ==> #[trigger] self.size_ok(g, y) }
    proof fn lm_sized_but(self, g: G, m: RawArenaIndex, y: RawArenaIndex)
        requires self.sized_but(g, m), y != m
        ensures self.size_ok(g, y)
    { reveal(TS::sized_but); assert(self.size_ok(g, y)); }
    proof fn lm_sized(self, g: G, m: RawArenaIndex)
        requires self.sized_but(g, m), self.size_ok(g, m)
        ensures self.sized(g)
    { reveal(TS::sized_but); reveal(TS::sized); assert forall|y: RawArenaIndex| #[trigger] self.size_ok(g, y) by { if y != m { assert(self.size_ok(g, y)); } } }
    proof fn lm_sized_any(self, g: G, m: RawArenaIndex)
        requires self.sized(g)
        ensures self.sized_but(g, m)
    { reveal(TS::sized_but); reveal(TS::sized); assert forall|y: RawArenaIndex| #[trigger] self.size_ok(g, y) by { assert(self.size_ok(g, y)); } }

    // a leaf or a childless node taken out
    spec fn without(self, g: G, a: ArenaIndex) -> TS<B> {
        let p = self.par(a);
        let t = self.setch(p, self.nodes[p].ch.remove(plc(g, a) - (g.fst)(p)));
        match a {
            ArenaIndex::Leaf(l) => TS { leaves: t.leaves.remove(l), ..t },
            ArenaIndex::Internal(m) => TS { nodes: t.nodes.remove(m), ..t },
        }
    }
    spec fn g_drop(self, g: G, a: ArenaIndex) -> G { g_del(g, hgt(g, a), plc(g, a), self.par(a)) }
    spec fn drop(self, g: G, a: ArenaIndex) -> TS<B> {
        let p = self.par(a);
        self.without(g, a).slotted(self.g_drop(g, a), p, plc(g, a) - (g.fst)(p))
    }
    // what taking out a does to the other nodes
    proof fn lm_drop_frame(self, g: G, a: ArenaIndex)
        requires self.lnk(g), self.has(a), a != self.root, a is Internal ==> self.n(a.ix()) == 0
        ensures ({
            let p = self.par(a);
            let k = plc(g, a) - (g.fst)(p);
            let t0 = self.without(g, a);
            let t1 = self.drop(g, a);
            &&& t0.can_slot(self.g_drop(g, a), p, k)
            &&& self.nodes.contains_key(p) && (g.ht)(p) == hgt(g, a) + 1 && hgt(g, a) + 1 < g.lv.len() && 0 <= k < self.n(p) && (a is Leaf || p != a.ix())
            &&& 0 <= plc(g, a) < g.lv[hgt(g, a)].len() && self.nodes[p].ch[k].arena == a && 0 <= hgt(g, a) && 0 <= (g.fst)(p) && aix(g, hgt(g, a), plc(g, a)) == a
            &&& t1.nodes.dom() == t0.nodes.dom() && t1.leaves.dom() == t0.leaves.dom()
            &&& forall|y: RawArenaIndex| #[trigger] t1.nodes.contains_key(y) ==> self.nodes.contains_key(y) && a != ArenaIndex::Internal(y)
            &&& t1.nodes[p].ch == self.nodes[p].ch.remove(k)
            &&& forall|y: RawArenaIndex| t1.nodes.contains_key(y) ==> (#[trigger] t1.nodes[y]).par == self.nodes[y].par && (y != p ==> t1.nodes[y].ch == self.nodes[y].ch)
                && t1.nodes[y].slot == (if a is Internal && y != self.rt() && self.par(ArenaIndex::Internal(y)) == p && (g.pos)(y) > plc(g, a) { self.nodes[y].slot - 1 } else { self.nodes[y].slot as int })
            &&& forall|l: RawArenaIndex| t1.leaves.contains_key(l) ==> #[trigger] t1.leaves[l] == self.leaves[l] && a != ArenaIndex::Leaf(l)
        })
    {
        let p = self.par(a);
        let h = hgt(g, a);
        let i = plc(g, a);
        let g1 = self.g_drop(g, a);
        let t0 = self.without(g, a);
        let t1 = self.drop(g, a);
        self.lm_root(g);
        self.lm_par(g, a);
        self.lm_node(g, p);
        if a is Internal { self.lm_node(g, a.ix()); } else { self.lm_leaf(g, a.ix()); }
        let k = i - (g.fst)(p);
        if t0.n(p) > k { self.lm_child(g, p, 0); self.lm_child(g, p, 1); }
        assert(t1.nodes.dom() =~= t0.nodes.dom());
        assert(t1.leaves.dom() =~= t0.leaves.dom());
        assert forall|j: int| k <= j < t0.n(p) && a is Internal implies #[trigger] t0.slotting(g1, p, j) by {
            self.lm_child(g, p, j + 1);
            let x = self.nodes[p].ch[j + 1].arena;
            assert(t0.nodes[p].ch[j].arena == x);
            self.lm_par(g, x);
        }
        assert forall|y: RawArenaIndex| t1.nodes.contains_key(y) implies (#[trigger] t1.nodes[y]).par == self.nodes[y].par && (y != p ==> t1.nodes[y].ch == self.nodes[y].ch)
            && t1.nodes[y].slot == (if a is Internal && y != self.rt() && self.par(ArenaIndex::Internal(y)) == p && (g.pos)(y) > plc(g, a) { self.nodes[y].slot - 1 } else { self.nodes[y].slot as int }) by {
            self.lm_node(g, y);
            let x = ArenaIndex::Internal(y);
            if y != self.rt() { self.lm_par(g, x); self.lm_node(g, self.par(x)); }
            if a is Internal && t0.n(p) > k {
                assert(t0.nodes[p].ch[0].arena is Internal);
                let q = hit(g1, h, (g.fst)(p) + k, (g.fst)(p) + t0.n(p), x);
                if q {
                    // then y was a child of p behind a
                    assert((g.ht)(y) == h && i < (g.pos)(y) < (g.fst)(p) + self.n(p));
                    assert(y != self.rt());
                    let z = self.par(x);
                    if (g.pos)(z) < (g.pos)(p) { self.lm_order(g, z, p); }
                    if (g.pos)(z) > (g.pos)(p) { self.lm_order(g, p, z); }
                    if (g.pos)(z) == (g.pos)(p) { self.lm_order(g, p, z); }
                    assert(z == p);
                    assert(t1.nodes[y].slot == (g.pos)(y) - 1 - (g.fst)(p));
                } else if y != self.rt() && self.par(x) == p && (g.pos)(y) > i {
                    assert(g1.lv[h][(g.pos)(y) - 1] == y);
                    assert(false);
                }
            }
        }
        assert forall|l: RawArenaIndex| t1.leaves.contains_key(l) implies #[trigger] t1.leaves[l] == self.leaves[l] && a != ArenaIndex::Leaf(l) by {
            assert(a is Internal ==> !hit(g1, h, (g.fst)(p) + k, (g.fst)(p) + t0.n(p), ArenaIndex::Leaf(l)));
        }
    }
    // the children of the nodes beside p come before or behind those of p
    proof fn lm_apart(self, g: G, p: RawArenaIndex, y: RawArenaIndex)
        requires self.lnk(g), self.nodes.contains_key(p), self.nodes.contains_key(y), (g.ht)(y) == (g.ht)(p)
        ensures y == p || (g.pos)(y) < (g.pos)(p) && (g.fst)(y) + self.n(y) <= (g.fst)(p) || (g.pos)(y) > (g.pos)(p) && (g.fst)(p) + self.n(p) <= (g.fst)(y)
    { if (g.pos)(y) <= (g.pos)(p) { self.lm_order(g, y, p); } else { self.lm_order(g, p, y); } }
    proof fn lm_drop_node(self, g: G, a: ArenaIndex, y: RawArenaIndex)
        requires self.lnk(g), self.has(a), a != self.root, a is Internal ==> self.n(a.ix()) == 0, self.drop(g, a).nodes.contains_key(y)
        ensures self.drop(g, a).node_ok(self.g_drop(g, a), y)
    {
        let p = self.par(a);
        let h = hgt(g, a);
        let i = plc(g, a);
        let g1 = self.g_drop(g, a);
        let t1 = self.drop(g, a);
        self.lm_root(g);
        self.lm_drop_frame(g, a);
        assert(self.nodes.contains_key(y));
        self.lm_node(g, y);
        if (g.ht)(y) == h + 1 { self.lm_apart(g, p, y); }
        assert(t1.nodes[y].par == self.nodes[y].par);
        let k = i - (g.fst)(p);
        if (g.ht)(y) == h && (g.pos)(y) == i { assert(y == a.ix()); }
        assert(t1.place_ok(g1, y));
        assert(t1.cover_ok(g1, y)) by {
            if a is Internal { self.lm_node(g, a.ix()); }
            if (g.pos)(y) + 1 < g.lv[(g.ht)(y)].len() { self.lm_at(g, (g.ht)(y), (g.pos)(y) + 1); self.lm_node(g, g.lv[(g.ht)(y)][(g.pos)(y) + 1]); }
            if (g.pos)(y) + 2 < g.lv[(g.ht)(y)].len() { self.lm_at(g, (g.ht)(y), (g.pos)(y) + 2); }
            if (g.ht)(y) == h && i + 1 < g.lv[h].len() { self.lm_at(g, h, i + 1); }
        }
        assert(t1.kids_ok(g1, y)) by {
            assert forall|j: int| 0 <= j < t1.n(y) implies (#[trigger] t1.nodes[y].ch[j]).arena == aix(g1, (g1.ht)(y) - 1, (g1.fst)(y) + j) by {
                if y == p {
                    if j < k { assert(self.nodes[p].ch[j].arena == aix(g, h, (g.fst)(p) + j)); }
                    else { assert(self.nodes[p].ch[j + 1].arena == aix(g, h, (g.fst)(p) + j + 1)); }
                }
                else { assert(self.nodes[y].ch[j].arena == aix(g, (g.ht)(y) - 1, (g.fst)(y) + j)); }
            }
        }
        assert(t1.link_ok(g1, y)) by {
            if y != self.rt() {
                let q = self.par(ArenaIndex::Internal(y));
                self.lm_par(g, ArenaIndex::Internal(y));
                self.lm_node(g, q);
                if (g.ht)(q) == h + 1 { self.lm_apart(g, p, q); }
                assert(t1.nodes.contains_key(q));
                if q == p { self.lm_apart(g, p, q); assert((g1.fst)(q) == (g.fst)(q)); assert(t1.n(q) == self.n(q) - 1); }
                else { assert(t1.n(q) == self.n(q)); }
            }
        }
    }
    proof fn lm_drop(self, g: G, a: ArenaIndex)
        requires self.lnk(g), self.has(a), a != self.root, a is Internal ==> self.n(a.ix()) == 0
        ensures self.drop(g, a).lnk(self.g_drop(g, a)), self.without(g, a).can_slot(self.g_drop(g, a), self.par(a), plc(g, a) - (g.fst)(self.par(a))),
    {
        let p = self.par(a);
        let h = hgt(g, a);
        let i = plc(g, a);
        let g1 = self.g_drop(g, a);
        let t1 = self.drop(g, a);
        self.lm_root(g);
        self.lm_drop_frame(g, a);
        assert(t1.top_ok(g1)) by { assert(g1.lv.last() == seq![self.rt()]); }
        assert forall|y: RawArenaIndex| #[trigger] t1.node_ok(g1, y) by { if t1.nodes.contains_key(y) { self.lm_drop_node(g, a, y); } }
        assert forall|hh: int, ii: int| #[trigger] t1.lvl_ok(g1, hh, ii) by {
            if 1 <= hh < g1.lv.len() && 0 <= ii < g1.lv[hh].len() {
                let jj = if hh == h && ii >= i { ii + 1 } else { ii };
                self.lm_at(g, hh, jj);
                assert(g.lv[hh][jj] == g1.lv[hh][ii]);
            }
        }
        assert forall|ii: int| #[trigger] t1.lfl_ok(g1, ii) by {
            if 0 <= ii < g1.lv[0].len() {
                let jj = if h == 0 && ii >= i { ii + 1 } else { ii };
                self.lm_at(g, 0, jj);
                assert(g.lv[0][jj] == g1.lv[0][ii]);
            }
        }
        assert forall|l: RawArenaIndex| #[trigger] t1.leaf_ok(g1, l) by {
            if t1.leaves.contains_key(l) {
                assert(t1.leaves[l] == self.leaves[l]);
                self.lm_leaf(g, l);
                let q = self.leaves[l].parent;
                self.lm_node(g, q);
                if a is Leaf { self.lm_apart(g, p, q); }
                assert(t1.nodes.contains_key(q));
                if q == p { assert(t1.n(q) == self.n(q) - 1); } else { assert(t1.n(q) == self.n(q)); }
            }
        }
        reveal(TS::lnk);
    }
}
impl<B: BTreeTrait> TS<B> {
    proof fn lm_drop_rest(self, g: G, a: ArenaIndex)
        requires self.lnk(g), self.has(a), a != self.root, a is Internal ==> self.n(a.ix()) == 0
        ensures ({
            let p = self.par(a);
            let t = self.drop(g, a);
            let g1 = self.g_drop(g, a);
            let k = plc(g, a) - (g.fst)(p);
            &&& self.nodes.contains_key(p) && t.nodes.contains_key(p) && (g.ht)(p) == hgt(g, a) + 1 && (g.ht)(p) < g.lv.len() && g1.ht == g.ht && g1.lv.len() == g.lv.len() && t.root == self.root
            &&& 0 <= k < self.n(p) && self.nodes[p].ch[k].arena == a
            &&& t.n(p) == self.n(p) - 1 && t.kids(p) == self.kids(p).remove(k)
            &&& forall|y: RawArenaIndex| t.nodes.contains_key(y) ==> self.nodes.contains_key(y) && (y != p ==> #[trigger] t.nodes[y].ch == self.nodes[y].ch)
            &&& forall|y: RawArenaIndex| self.nodes.contains_key(y) && a != ArenaIndex::Internal(y) ==> #[trigger] t.nodes.contains_key(y)
            &&& p != self.rt() ==> t.par(ArenaIndex::Internal(p)) == self.par(ArenaIndex::Internal(p))
            &&& (self.sized(g) || a is Internal && self.sized_but(g, a.ix())) ==> t.sized_but(g1, p)
            &&& (self.not_full() ==> t.not_full()) && (self.elems_ok() ==> t.elems_ok())
            &&& a is Internal ==> t.same_leaves(self) && g1.lv[0] == g.lv[0] && g1.lpos == g.lpos
            &&& a is Leaf ==> t.same_but(self, a.ix(), a.ix(), a.ix()) && !t.leaves.contains_key(a.ix()) && g1.lv[0] == g.lv[0].remove(plc(g, a))
        })
    {
        let p = self.par(a);
        let t = self.drop(g, a);
        let t0 = self.without(g, a);
        let g1 = self.g_drop(g, a);
        self.lm_root(g);
        self.lm_par(g, a);
        self.lm_node(g, p);
        let k = plc(g, a) - (g.fst)(p);
        assert(t.nodes.dom() =~= t0.nodes.dom());
        assert(t.leaves.dom() =~= t0.leaves.dom());
        assert(t.kids(p) =~= self.kids(p).remove(k));
        if p != self.rt() { self.lm_par(g, ArenaIndex::Internal(p)); assert((g1.ht)(p) == hgt(g, a) + 1);
            assert(t.par(ArenaIndex::Internal(p)) == self.par(ArenaIndex::Internal(p))); }
        if self.sized(g) || a is Internal && self.sized_but(g, a.ix()) {
            reveal(TS::sized); reveal(TS::sized_but);
            assert forall|y: RawArenaIndex| y != p implies #[trigger] t.size_ok(g1, y) by { if a != ArenaIndex::Internal(y) { assert(self.size_ok(g, y)); } }
        }
        if self.not_full() {
            reveal(TS::not_full);
            assert forall|y: RawArenaIndex| #[trigger] t.roomy(y) by { assert(self.roomy(y)); }
        }
        if self.elems_ok() {
            reveal(TS::elems_ok);
            assert forall|l: RawArenaIndex| #[trigger] t.elem_ok(l) by { assert(self.elem_ok(l)); }
        }
        reveal(TS::same_but); reveal(TS::same_leaves);
        if a is Internal { assert forall|l: RawArenaIndex| #[trigger] t.same_leaf(self, l) by {} }
        if a is Leaf { assert forall|l: RawArenaIndex| l != a.ix() implies #[trigger] t.same_leaf(self, l) by {} }
    }
    // every entry is right, but perhaps those for a and b
    spec fn cxx1(self, a: ArenaIndex, b: ArenaIndex, m: RawArenaIndex) -> bool {
        self.nodes.contains_key(m) ==> forall|k: int| 0 <= k < self.n(m) ==> {
            let c = #[trigger] self.nodes[m].ch[k];
            B::cok(c.cache) && (c.arena != a && c.arena != b ==> c.cache == self.kc(c.arena))
        }
    }
    #[verifier::opaque]
    spec fn cxx(self, a: ArenaIndex, b: ArenaIndex) -> bool { forall|m: RawArenaIndex| #[trigger] self.cxx1(a, b, m) }
    proof fn lm_cxx(self, a: ArenaIndex, b: ArenaIndex)
        requires self.cx(a) || self.cx(b)
        ensures self.cxx(a, b)
    { reveal(TS::cx); reveal(TS::cxx); assert forall|m: RawArenaIndex| #[trigger] self.cxx1(a, b, m) by { if self.cx(a) { assert(self.cx1(a, m)); } else { assert(self.cx1(b, m)); } } }
    proof fn lm_cxx_same(self, a: ArenaIndex)
        requires self.cxx(a, a)
        ensures self.cx(a)
    { reveal(TS::cx); reveal(TS::cxx); assert forall|m: RawArenaIndex| #[trigger] self.cx1(a, m) by { assert(self.cxx1(a, a, m)); } }
    proof fn lm_drop_cx(self, g: G, a: ArenaIndex)
        requires self.lnk(g), self.has(a), a != self.root, a is Internal ==> self.n(a.ix()) == 0, self.cxx(a, ArenaIndex::Internal(self.par(a)))
        ensures self.drop(g, a).cx(ArenaIndex::Internal(self.par(a)))
    {
        let p = self.par(a);
        let t = self.drop(g, a);
        let u = ArenaIndex::Internal(p);
        self.lm_drop_rest(g, a);
        self.lm_par(g, a);
        self.lm_node(g, p);
        let k = plc(g, a) - (g.fst)(p);
        reveal(TS::cx); reveal(TS::cxx);
        assert forall|m: RawArenaIndex| #[trigger] t.cx1(u, m) by {
            assert(self.cxx1(a, u, m));
            if t.nodes.contains_key(m) {
                assert forall|j: int| 0 <= j < t.n(m) implies {
                    let c = #[trigger] t.nodes[m].ch[j];
                    B::cok(c.cache) && (c.arena != u ==> c.cache == t.kc(c.arena))
                } by {
                    let i = if m == p && j >= k { j + 1 } else { j };
                    assert(t.nodes[m].ch[j] == self.nodes[m].ch[i]);
                    self.lm_child(g, m, i);
                    let x = self.nodes[m].ch[i].arena;
                    if x == a { assert(m == p); assert(i == k); }
                    if x != u { if x is Internal { assert(t.nodes[x.ix()].ch == self.nodes[x.ix()].ch); } }
                }
            }
        }
    }
    // children of the neighbours a and b shared out anew: a gets the first s of them
    spec fn shared(self, a: RawArenaIndex, b: RawArenaIndex, s: int, c1: B::Cache, c2: B::Cache) -> TS<B> {
        let p = self.par(ArenaIndex::Internal(a));
        let k = self.nodes[a].slot as int;
        let all = self.nodes[a].ch + self.nodes[b].ch;
        self.setch(p, self.nodes[p].ch.update(k, Child { arena: ArenaIndex::Internal(a), cache: c1 }).update(k + 1, Child { arena: ArenaIndex::Internal(b), cache: c2 }))
            .setch(a, all.subrange(0, s)).setch(b, all.subrange(s, all.len() as int))
    }
    spec fn regroup(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int, c1: B::Cache, c2: B::Cache) -> TS<B> {
        let p = self.par(ArenaIndex::Internal(a));
        let k = self.nodes[a].slot as int;
        let all = self.nodes[a].ch + self.nodes[b].ch;
        let f = (g.fst)(a);
        let h = (g.ht)(a) - 1;
        self.shared(a, b, s, c1, c2)
            .moved(g, h, f, f + s, a, f).moved(g, h, f + s, f + all.len(), b, f + s)
    }
    spec fn beside(self, g: G, a: RawArenaIndex, b: RawArenaIndex) -> bool {
        &&& self.nodes.contains_key(a) && self.nodes.contains_key(b) && a != self.rt() && b != self.rt()
        &&& self.par(ArenaIndex::Internal(a)) == self.par(ArenaIndex::Internal(b)) && self.nodes[b].slot == self.nodes[a].slot + 1
    }
    proof fn lm_beside(self, g: G, a: RawArenaIndex, b: RawArenaIndex)
        requires self.lnk(g), self.beside(g, a, b)
        ensures ({
            let p = self.par(ArenaIndex::Internal(a));
            let k = self.nodes[a].slot as int;
            &&& a != b && (g.ht)(a) == (g.ht)(b) && (g.pos)(b) == (g.pos)(a) + 1 && (g.fst)(b) == (g.fst)(a) + self.n(a)
            &&& self.nodes.contains_key(p) && (g.ht)(p) == (g.ht)(a) + 1 && p != a && p != b && 0 <= k && k + 1 < self.n(p)
            &&& (g.pos)(a) == (g.fst)(p) + k
            &&& self.nodes[p].ch[k].arena == ArenaIndex::Internal(a) && self.nodes[p].ch[k + 1].arena == ArenaIndex::Internal(b)
            &&& self.nodes[a].par == Some(ArenaIndex::Internal(p)) && self.nodes[b].par == Some(ArenaIndex::Internal(p))
            &&& (g.fst)(b) + self.n(b) <= g.lv[(g.ht)(a) - 1].len() && 0 <= (g.fst)(a) && 1 <= (g.ht)(a)
        })
    {
        self.lm_root(g);
        self.lm_node(g, a); self.lm_node(g, b);
        self.lm_par(g, ArenaIndex::Internal(a)); self.lm_par(g, ArenaIndex::Internal(b));
        self.lm_at(g, (g.ht)(a), (g.pos)(a) + 1);
    }
    proof fn lm_regroup(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int, c1: B::Cache, c2: B::Cache)
        requires self.lnk(g), self.beside(g, a, b), 0 <= s <= MAX_CHILDREN_NUM, s <= self.n(a) + self.n(b), self.n(a) + self.n(b) - s <= MAX_CHILDREN_NUM
        ensures self.regroup(g, a, b, s, c1, c2).lnk(g_cut(g, b, (g.fst)(a) + s))
    {
        let p = self.par(ArenaIndex::Internal(a));
        let k = self.nodes[a].slot as int;
        let f = (g.fst)(a);
        let h = (g.ht)(a) - 1;
        let na = self.n(a);
        let nn = na + self.n(b);
        let g1 = g_cut(g, b, f + s);
        let t1 = self.regroup(g, a, b, s, c1, c2);
        let all = self.nodes[a].ch + self.nodes[b].ch;
        self.lm_root(g);
        self.lm_beside(g, a, b);
        assert(t1.nodes.dom() =~= self.nodes.dom());
        assert(t1.leaves.dom() =~= self.leaves.dom());
        assert forall|j: int| 0 <= j < nn implies (#[trigger] all[j]).arena == aix(g, h, f + j) by {
            if j < na { self.lm_child(g, a, j); } else { self.lm_child(g, b, j - na); }
        }
        // which nodes and leaves change hands
        assert forall|x: ArenaIndex| self.has(x) && x != self.root implies #[trigger] hit(g, h, f, f + nn, x) == (self.par(x) == a || self.par(x) == b) by {
            let q = self.par(x);
            self.lm_par(g, x);
            self.lm_node(g, q);
            if x is Internal { self.lm_node(g, x.ix()); } else { self.lm_leaf(g, x.ix()); }
            if (g.ht)(q) == h + 1 {
                if (g.pos)(q) < (g.pos)(a) { self.lm_order(g, q, a); }
                if (g.pos)(q) == (g.pos)(a) { self.lm_order(g, q, a); }
                if (g.pos)(q) == (g.pos)(b) { self.lm_order(g, q, b); }
                if (g.pos)(q) > (g.pos)(b) { self.lm_order(g, b, q); }
            }
        }
        reveal(TS::lnk);
        assert forall|hh: int, ii: int| #[trigger] t1.lvl_ok(g1, hh, ii) by { assert(self.lvl_ok(g, hh, ii)); }
        assert forall|ii: int| #[trigger] t1.lfl_ok(g1, ii) by { assert(self.lfl_ok(g, ii)); }
        assert forall|y: RawArenaIndex| #[trigger] t1.node_ok(g1, y) by {
            assert(self.node_ok(g, y));
            if t1.nodes.contains_key(y) {
                assert(self.nodes.contains_key(y));
                assert(t1.n(y) == (if y == a { s } else if y == b { nn - s } else { self.n(y) }));
                assert(t1.place_ok(g1, y));
                assert(t1.cover_ok(g1, y)) by {
                    if (g.pos)(y) + 1 < g.lv[(g.ht)(y)].len() { self.lm_at(g, (g.ht)(y), (g.pos)(y) + 1); }
                    self.lm_node(g, a); self.lm_node(g, b);
                }
                assert(t1.kids_ok(g1, y)) by {
                    assert forall|j: int| 0 <= j < t1.n(y) implies (#[trigger] t1.nodes[y].ch[j]).arena == aix(g1, (g1.ht)(y) - 1, (g1.fst)(y) + j) by {
                        if y == a { assert(t1.nodes[y].ch[j] == all[j]); }
                        else if y == b { assert(t1.nodes[y].ch[j] == all[s + j]); }
                        else { assert(self.nodes[y].ch[j].arena == aix(g, (g.ht)(y) - 1, (g.fst)(y) + j)); }
                    }
                }
                assert(t1.link_ok(g1, y)) by {
                    if y != self.rt() {
                        let x = ArenaIndex::Internal(y);
                        let q = self.par(x);
                        self.lm_node(g, q);
                        self.lm_par(g, x);
                        assert(hit(g, h, f, f + nn, x) == (q == a || q == b));
                        assert(hit(g, h, f, f + nn, x) == (hit(g, h, f, f + s, x) || hit(g, h, f + s, f + nn, x)));
                        if q == a || q == b {
                            assert((g.pos)(y) < f + s ==> t1.nodes[y].par == Some(ArenaIndex::Internal(a)) && t1.nodes[y].slot == (g.pos)(y) - f);
                            assert((g.pos)(y) >= f + s ==> t1.nodes[y].par == Some(ArenaIndex::Internal(b)) && t1.nodes[y].slot == (g.pos)(y) - f - s);
                            assert(t1.link_ok(g1, y));
                        } else {
                            assert(t1.nodes[y].par == self.nodes[y].par && t1.nodes[y].slot == self.nodes[y].slot);
                            assert(t1.n(q) == self.n(q));
                            assert(t1.link_ok(g1, y));
                        }
                    } else {
                        self.lm_node(g, a);
                        assert(t1.nodes[y].par == self.nodes[y].par);
                    }
                }
            }
        }
        assert forall|l: RawArenaIndex| #[trigger] t1.leaf_ok(g1, l) by {
            assert(self.leaf_ok(g, l));
            if t1.leaves.contains_key(l) {
                let x = ArenaIndex::Leaf(l);
                let q = self.leaves[l].parent;
                self.lm_node(g, q);
                self.lm_par(g, x);
                assert(hit(g, h, f, f + nn, x) == (q == a || q == b));
            }
        }
    }
    proof fn lm_regroup_rest(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int, c1: B::Cache, c2: B::Cache)
        requires self.lnk(g), self.beside(g, a, b), 0 <= s <= MAX_CHILDREN_NUM, s <= self.n(a) + self.n(b), self.n(a) + self.n(b) - s <= MAX_CHILDREN_NUM
        ensures ({
            let p = self.par(ArenaIndex::Internal(a));
            let t = self.regroup(g, a, b, s, c1, c2);
            let g1 = g_cut(g, b, (g.fst)(a) + s);
            let k = self.nodes[a].slot as int;
            &&& t.nodes.dom() == self.nodes.dom() && t.leaves.dom() == self.leaves.dom() && t.root == self.root
            &&& t.nodes[a].ch == (self.nodes[a].ch + self.nodes[b].ch).subrange(0, s)
            &&& t.nodes[b].ch == (self.nodes[a].ch + self.nodes[b].ch).subrange(s, self.n(a) + self.n(b))
            &&& forall|y: RawArenaIndex| self.nodes.contains_key(y) && y != a && y != b && y != p ==> #[trigger] t.nodes[y].ch == self.nodes[y].ch
            &&& t.kids(p) == self.kids(p).update(k, c1).update(k + 1, c2) && t.n(p) == self.n(p)
            &&& t.nodes[p].par == self.nodes[p].par && t.nodes[a].par == self.nodes[a].par && t.nodes[b].par == self.nodes[b].par
            &&& t.nodes[p].slot == self.nodes[p].slot && t.nodes[a].slot == self.nodes[a].slot && t.nodes[b].slot == self.nodes[b].slot
            &&& forall|y: RawArenaIndex| y != a && y != b && self.sized_but(g, y) && 0 < s < self.n(a) + self.n(b) ==> #[trigger] t.sized_but(g1, y)
            &&& (self.sized_but(g, a) || self.sized_but(g, b)) && 0 < s < self.n(a) + self.n(b) ==> t.sized(g1)
            &&& (self.sized_but(g, a) || self.sized_but(g, b)) && 0 < s ==> t.sized_but(g1, b)
            &&& (self.sized_but(g, a) || self.sized_but(g, b)) && s < self.n(a) + self.n(b) ==> t.sized_but(g1, a)
            &&& self.not_full() && s < MAX_CHILDREN_NUM && self.n(a) + self.n(b) - s < MAX_CHILDREN_NUM ==> t.not_full()
            &&& (self.elems_ok() ==> t.elems_ok()) && t.same_leaves(self)
        })
    {
        let p = self.par(ArenaIndex::Internal(a));
        let k = self.nodes[a].slot as int;
        let nn = self.n(a) + self.n(b);
        let g1 = g_cut(g, b, (g.fst)(a) + s);
        let t = self.regroup(g, a, b, s, c1, c2);
        self.lm_root(g);
        self.lm_beside(g, a, b);
        assert(t.nodes.dom() =~= self.nodes.dom());
        assert(t.leaves.dom() =~= self.leaves.dom());
        assert(t.kids(p) =~= self.kids(p).update(k, c1).update(k + 1, c2));
        reveal(TS::sized); reveal(TS::sized_but); reveal(TS::not_full); reveal(TS::elems_ok); reveal(TS::same_leaves);
        assert forall|z: RawArenaIndex| z != a && z != b && self.sized_but(g, z) && 0 < s < nn implies #[trigger] t.sized_but(g1, z) by {
            assert forall|y: RawArenaIndex| y != z implies #[trigger] t.size_ok(g1, y) by { assert(self.size_ok(g, y)); }
        }
        if self.sized_but(g, a) || self.sized_but(g, b) {
            assert forall|y: RawArenaIndex| (y == a ==> s > 0) && (y == b ==> s < nn) implies #[trigger] t.size_ok(g1, y) by { if y != a && y != b { assert(self.size_ok(g, y)); } }
        }
        if self.not_full() && s < MAX_CHILDREN_NUM && nn - s < MAX_CHILDREN_NUM {
            assert forall|y: RawArenaIndex| #[trigger] t.roomy(y) by { assert(self.roomy(y)); }
        }
        if self.elems_ok() { assert forall|l: RawArenaIndex| #[trigger] t.elem_ok(l) by { assert(self.elem_ok(l)); } }
        assert forall|l: RawArenaIndex| #[trigger] t.same_leaf(self, l) by {}
    }
    // the entries after that; the one of e does not matter
    proof fn lm_regroup_cx(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int, c1: B::Cache, c2: B::Cache, e: ArenaIndex)
        requires self.lnk(g), self.beside(g, a, b), 0 <= s <= MAX_CHILDREN_NUM, s <= self.n(a) + self.n(b), self.n(a) + self.n(b) - s <= MAX_CHILDREN_NUM,
            self.cx(ArenaIndex::Internal(self.par(ArenaIndex::Internal(a)))), B::cok(c1), B::cok(c2),
            e == ArenaIndex::Internal(a) || c1 == B::sum((self.kids(a) + self.kids(b)).subrange(0, s)),
            e == ArenaIndex::Internal(b) || c2 == B::sum((self.kids(a) + self.kids(b)).subrange(s, self.n(a) + self.n(b))),
        ensures self.regroup(g, a, b, s, c1, c2).cxx(e, ArenaIndex::Internal(self.par(ArenaIndex::Internal(a))))
    {
        let p = self.par(ArenaIndex::Internal(a));
        let u = ArenaIndex::Internal(p);
        let k = self.nodes[a].slot as int;
        let na = self.n(a);
        let all = self.nodes[a].ch + self.nodes[b].ch;
        let t = self.regroup(g, a, b, s, c1, c2);
        self.lm_beside(g, a, b);
        self.lm_regroup_rest(g, a, b, s, c1, c2);
        reveal(TS::cxx); reveal(TS::cx);
        assert(t.kids(a) =~= (self.kids(a) + self.kids(b)).subrange(0, s));
        assert(t.kids(b) =~= (self.kids(a) + self.kids(b)).subrange(s, self.n(a) + self.n(b)));
        assert forall|m: RawArenaIndex| #[trigger] t.cxx1(e, u, m) by {
            assert(self.cx1(u, m)); assert(self.cx1(u, a)); assert(self.cx1(u, b));
            if t.nodes.contains_key(m) {
                assert forall|j: int| 0 <= j < t.n(m) implies {
                    let c = #[trigger] t.nodes[m].ch[j];
                    B::cok(c.cache) && (c.arena != e && c.arena != u ==> c.cache == t.kc(c.arena))
                } by {
                    let c = t.nodes[m].ch[j];
                    if m == a || m == b {
                        let i = if m == a { j } else { s + j };
                        assert(c == all[i]);
                        if i < na { self.lm_child(g, a, i); assert(c == self.nodes[a].ch[i]); } else { self.lm_child(g, b, i - na); assert(c == self.nodes[b].ch[i - na]); }
                    } else {
                        self.lm_child(g, m, j);
                        if m == p && (j == k || j == k + 1) {
                        } else {
                            assert(c == self.nodes[m].ch[j]);
                            if c.arena == ArenaIndex::Internal(a) || c.arena == ArenaIndex::Internal(b) { assert(m == p); assert(false); }
                        }
                    }
                    let x = c.arena;
                    if x is Internal && x != u && x.ix() != a && x.ix() != b { assert(t.nodes[x.ix()].ch == self.nodes[x.ix()].ch); }
                }
            }
        }
    }
    // the entry of q is right again because its summary did not change
    proof fn lm_recached2(self, g: G, o: TS<B>, og: G, q: RawArenaIndex)
        requires self.lnk(g), o.lnk(og), o.caches_ok(), self.cx(ArenaIndex::Internal(q)), self.nodes.contains_key(q), o.nodes.contains_key(q), self.root == o.root,
            B::sum(self.kids(q)) == B::sum(o.kids(q)),
            q != o.rt() ==> self.par(ArenaIndex::Internal(q)) == o.par(ArenaIndex::Internal(q)) && ({
                let pp = o.par(ArenaIndex::Internal(q));
                self.nodes[pp].ch == o.nodes[pp].ch
            }),
        ensures self.caches_ok()
    {
        let a = ArenaIndex::Internal(q);
        self.lm_root(g); o.lm_root(og);
        reveal(TS::caches_ok); reveal(TS::cx);
        assert forall|m: RawArenaIndex| #[trigger] self.cache_ok(m) by {
            assert(self.cx1(a, m)); assert(o.cache_ok(m));
            if self.nodes.contains_key(m) {
                assert forall|j: int| 0 <= j < self.n(m) implies {
                    let c = #[trigger] self.nodes[m].ch[j];
                    B::cok(c.cache) && c.cache == self.kc(c.arena)
                } by {
                    let c = self.nodes[m].ch[j];
                    if c.arena == a {
                        self.lm_child(g, m, j);
                        o.lm_par(og, a);
                        assert(o.nodes.contains_key(m));
                        assert(c == o.nodes[m].ch[j]);
                        assert(self.kc(a) == o.kc(a));
                    }
                }
            }
        }
    }
}
impl<B: BTreeTrait> TS<B> {
    // the only child of the root takes the place of the root
    spec fn hoist(self, g: G) -> TS<B> {
        let m = self.rt();
        let c = self.nodes[m].ch[0].arena.ix();
        TS { nodes: self.nodes.remove(c).insert(m, NodeS { par: None, slot: 255, ch: self.nodes[c].ch }), ..self }
            .moved(g, g.lv.len() - 3, 0, self.n(c), m, 0)
    }
    proof fn lm_hoist(self, g: G)
        requires self.lnk(g), self.n(self.rt()) == 1, self.nodes[self.rt()].ch[0].arena is Internal
        ensures ({
            let m = self.rt();
            let c = self.nodes[m].ch[0].arena.ix();
            let g1 = g_hoist(g, m);
            let t = self.hoist(g);
            &&& t.lnk(g1) && self.nodes.contains_key(c) && c != m && t.root == self.root && g.lv.len() >= 3
            &&& g1.lv[0] == g.lv[0] && g1.lpos == g.lpos && g1.lv.len() == g.lv.len() - 1
            &&& self.sized_but(g, m) ==> t.sized(g1)
            &&& (self.not_full() ==> t.not_full()) && (self.elems_ok() ==> t.elems_ok()) && t.same_leaves(self)
            &&& self.caches_ok() ==> t.caches_ok()
            &&& self.caches_ok() && (self.n(c) > 0 || B::exact0()) ==> t.kc(t.root) == self.kc(self.root)
            &&& t.nodes.dom() == self.nodes.dom().remove(c) && t.leaves.dom() == self.leaves.dom() && t.nodes[m] == (NodeS { par: None, slot: 255, ch: self.nodes[c].ch })
            &&& forall|y: RawArenaIndex| t.nodes.contains_key(y) && y != m ==> (#[trigger] t.nodes[y]).ch == self.nodes[y].ch && t.nodes[y].slot == self.nodes[y].slot
                && (t.nodes[y].par == self.nodes[y].par || t.nodes[y].par == Some(self.root)) && self.nodes[y].par != Some(self.root)
            &&& forall|l: RawArenaIndex| t.leaves.contains_key(l) ==> (#[trigger] t.leaves[l]).elem == self.leaves[l].elem && (t.leaves[l].parent == self.leaves[l].parent || t.leaves[l].parent == m)
                && self.leaves[l].parent != m
        })
    {
        let m = self.rt();
        let h = g.lv.len() - 1;
        let c = self.nodes[m].ch[0].arena.ix();
        let g1 = g_hoist(g, m);
        let t = self.hoist(g);
        self.lm_root(g);
        self.lm_node(g, m);
        self.lm_child(g, m, 0);
        self.lm_node(g, c);
        assert(t.nodes.dom() =~= self.nodes.dom().remove(c));
        assert(t.leaves.dom() =~= self.leaves.dom());
        assert(g.lv[h - 1] =~= seq![c]);
        assert(g1.lv.last() =~= seq![m]);
        assert forall|y: RawArenaIndex| self.nodes.contains_key(y) && y != m && y != c implies (#[trigger] (g.ht)(y)) < h - 1 by {
            self.lm_node(g, y);
            if (g.ht)(y) == h - 1 { assert(g.lv[h - 1][(g.pos)(y)] == c); }
        }
        // what was under c is under the root
        assert forall|x: ArenaIndex| self.has(x) && x != self.root implies #[trigger] hit(g, h - 2, 0, self.n(c), x) == (self.par(x) == c) by {
            let q = self.par(x);
            self.lm_par(g, x);
            self.lm_node(g, q);
            if x is Internal { self.lm_node(g, x.ix()); } else { self.lm_leaf(g, x.ix()); }
        }
        assert forall|y: RawArenaIndex| t.nodes.contains_key(y) && y != m implies (#[trigger] t.nodes[y]).ch == self.nodes[y].ch && t.nodes[y].slot == self.nodes[y].slot
                && (t.nodes[y].par == self.nodes[y].par || t.nodes[y].par == Some(self.root)) && self.nodes[y].par != Some(self.root) by {
            let x = ArenaIndex::Internal(y);
            self.lm_par(g, x);
            self.lm_node(g, y);
            assert((g.ht)(y) < h - 1);
            assert(hit(g, h - 2, 0, self.n(c), x) == (self.par(x) == c));
        }
        assert forall|l: RawArenaIndex| t.leaves.contains_key(l) implies (#[trigger] t.leaves[l]).elem == self.leaves[l].elem
                && (t.leaves[l].parent == self.leaves[l].parent || t.leaves[l].parent == m) && self.leaves[l].parent != m by {
            self.lm_leaf(g, l);
        }
        reveal(TS::lnk);
        assert forall|hh: int, ii: int| #[trigger] t.lvl_ok(g1, hh, ii) by { assert(self.lvl_ok(g, hh, ii)); }
        assert forall|ii: int| #[trigger] t.lfl_ok(g1, ii) by { assert(self.lfl_ok(g, ii)); }
        assert forall|y: RawArenaIndex| #[trigger] t.node_ok(g1, y) by {
            assert(self.node_ok(g, y));
            if t.nodes.contains_key(y) {
                assert(y != c);
                assert(self.nodes.contains_key(y));
                assert(t.place_ok(g1, y));
                assert(t.cover_ok(g1, y)) by {
                    if y != m && (g.pos)(y) + 1 < g.lv[(g.ht)(y)].len() { self.lm_at(g, (g.ht)(y), (g.pos)(y) + 1); }
                }
                assert(t.kids_ok(g1, y)) by {
                    assert forall|j: int| 0 <= j < t.n(y) implies (#[trigger] t.nodes[y].ch[j]).arena == aix(g1, (g1.ht)(y) - 1, (g1.fst)(y) + j) by {
                        if y == m { assert(self.nodes[c].ch[j].arena == aix(g, h - 2, (g.fst)(c) + j)); }
                        else { assert(self.nodes[y].ch[j].arena == aix(g, (g.ht)(y) - 1, (g.fst)(y) + j)); }
                    }
                }
                assert(t.link_ok(g1, y)) by {
                    if y != m {
                        let x = ArenaIndex::Internal(y);
                        self.lm_par(g, x);
                        self.lm_node(g, self.par(x));
                        assert(hit(g, h - 2, 0, self.n(c), x) == (self.par(x) == c));
                    }
                }
            }
        }
        assert forall|l: RawArenaIndex| #[trigger] t.leaf_ok(g1, l) by {
            assert(self.leaf_ok(g, l));
            if t.leaves.contains_key(l) {
                let x = ArenaIndex::Leaf(l);
                self.lm_par(g, x);
                self.lm_node(g, self.par(x));
                assert(hit(g, h - 2, 0, self.n(c), x) == (self.par(x) == c));
            }
        }
        reveal(TS::sized); reveal(TS::sized_but); reveal(TS::not_full); reveal(TS::elems_ok); reveal(TS::same_leaves); reveal(TS::caches_ok);
        if self.sized_but(g, m) {
            assert(self.size_ok(g, c));
            assert forall|y: RawArenaIndex| #[trigger] t.size_ok(g1, y) by { assert(y != m ==> self.size_ok(g, y)); }
        }
        if self.not_full() { assert forall|y: RawArenaIndex| #[trigger] t.roomy(y) by { assert(self.roomy(y)); assert(self.roomy(c)); } }
        if self.elems_ok() { assert forall|l: RawArenaIndex| #[trigger] t.elem_ok(l) by { assert(self.elem_ok(l)); } }
        assert forall|l: RawArenaIndex| #[trigger] t.same_leaf(self, l) by {}
        if self.caches_ok() {
            assert forall|y: RawArenaIndex| #[trigger] t.cache_ok(y) by {
                let z = if y == m { c } else { y };
                assert(self.cache_ok(z));
                if t.nodes.contains_key(y) {
                    assert forall|j: int| 0 <= j < t.n(y) implies {
                        let k = #[trigger] t.nodes[y].ch[j];
                        B::cok(k.cache) && k.cache == t.kc(k.arena)
                    } by {
                        let k = t.nodes[y].ch[j];
                        assert(k == self.nodes[z].ch[j]);
                        self.lm_child(g, z, j);
                        if k.arena is Internal { assert(t.nodes[k.arena.ix()].ch == self.nodes[k.arena.ix()].ch); }
                    }
                }
            }
            assert(self.cache_ok(m));
            assert(self.nodes[m].ch[0].cache == B::sum(self.kids(c)));
            assert(self.kids(m) =~= seq![B::sum(self.kids(c))]);
            if self.n(c) > 0 || B::exact0() { B::law_one(self.kids(c)); }
        }
    }
    // a root without children is all there is
    proof fn lm_none(self, g: G, h: int)
        requires self.lnk(g), self.n(self.rt()) == 0, 0 <= h <= g.lv.len() - 2
        ensures g.lv[h].len() == 0
        decreases g.lv.len() - h
    {
        self.lm_root(g);
        if h < g.lv.len() - 2 {
            self.lm_none(g, h + 1);
            if g.lv[h].len() > 0 {
                self.lm_at(g, h, 0);
                let a = aix(g, h, 0);
                assert(a != self.root);
                self.lm_par(g, a);
                self.lm_node(g, self.par(a));
            }
        }
    }
    proof fn lm_hoist_fat(self, g: G)
        requires self.lnk(g), self.n(self.rt()) == 1, self.nodes[self.rt()].ch[0].arena is Internal, self.fat_but(g, self.rt())
        ensures self.hoist(g).fat_but(g_hoist(g, self.rt()), self.rt())
    {
        let m = self.rt();
        let c = self.nodes[m].ch[0].arena.ix();
        let t = self.hoist(g);
        self.lm_hoist(g);
        reveal(TS::fat_but);
        assert(self.fat_ok(g, c));
        assert forall|y: RawArenaIndex| y != m implies #[trigger] t.fat_ok(g_hoist(g, m), y) by { assert(self.fat_ok(g, y)); }
    }
    // taking out a leaf
    proof fn lm_drop_fat(self, g: G, a: ArenaIndex)
        requires self.lnk(g), self.has(a), a is Leaf, self.fat(g)
        ensures self.drop(g, a).fat_but(self.g_drop(g, a), self.par(a))
    {
        let p = self.par(a);
        let t = self.drop(g, a);
        let g1 = self.g_drop(g, a);
        self.lm_root(g);
        self.lm_drop_rest(g, a);
        self.lm_fat(g, p);
        reveal(TS::fat_but);
        assert forall|y: RawArenaIndex| y != p implies #[trigger] t.fat_ok(g1, y) by { assert(self.fat_ok(g, y)); }
        if p == self.rt() && g.lv.len() != 2 { self.lm_par(g, a); self.lm_node(g, p); }
    }
    proof fn lm_moved_fat(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int, c1: B::Cache, c2: B::Cache, x: RawArenaIndex)
        requires self.lnk(g), self.beside(g, a, b), 2 <= s <= MAX_CHILDREN_NUM, s + 2 <= self.n(a) + self.n(b), self.n(a) + self.n(b) - s <= MAX_CHILDREN_NUM,
            self.fat_but(g, x), x == a || x == b
        ensures self.regroup(g, a, b, s, c1, c2).fat(g_cut(g, b, (g.fst)(a) + s))
    {
        let t = self.regroup(g, a, b, s, c1, c2);
        let g1 = g_cut(g, b, (g.fst)(a) + s);
        self.lm_root(g);
        self.lm_beside(g, a, b);
        self.lm_regroup_rest(g, a, b, s, c1, c2);
        reveal(TS::fat); reveal(TS::fat_but);
        let p = self.par(ArenaIndex::Internal(a));
        assert(t.kids(p).len() == self.kids(p).len());
        assert forall|y: RawArenaIndex| #[trigger] t.fat_ok(g1, y) by { if y != x { assert(self.fat_ok(g, y)); } }
    }
    proof fn lm_merged_fat(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int, c1: B::Cache, c2: B::Cache, d: RawArenaIndex, x: RawArenaIndex)
        requires self.lnk(g), self.beside(g, a, b), self.n(a) + self.n(b) < MAX_CHILDREN_NUM, s == 0 && d == a || s == self.n(a) + self.n(b) && d == b,
            self.fat_but(g, x), x == a || x == b
        ensures ({
            let t = self.regroup(g, a, b, s, c1, c2);
            let g1 = g_cut(g, b, (g.fst)(a) + s);
            let e = ArenaIndex::Internal(d);
            let p = self.par(ArenaIndex::Internal(a));
            t.drop(g1, e).fat_but(t.g_drop(g1, e), p) && (self.n(p) > 2 ==> t.drop(g1, e).fat(t.g_drop(g1, e)))
        })
    {
        let p = self.par(ArenaIndex::Internal(a));
        let t = self.regroup(g, a, b, s, c1, c2);
        let g1 = g_cut(g, b, (g.fst)(a) + s);
        let e = ArenaIndex::Internal(d);
        let t2 = t.drop(g1, e);
        let g2 = t.g_drop(g1, e);
        self.lm_root(g);
        self.lm_beside(g, a, b);
        self.lm_regroup(g, a, b, s, c1, c2);
        self.lm_regroup_rest(g, a, b, s, c1, c2);
        t.lm_drop_rest(g1, e);
        self.lm_fat_but(g, x, p); self.lm_fat_but(g, x, a); self.lm_fat_but(g, x, b);
        self.lm_node(g, p); self.lm_node(g, a);
        reveal(TS::fat_but);
        assert(t.par(e) == p);
        assert forall|y: RawArenaIndex| y != p implies #[trigger] t2.fat_ok(g2, y) by {
            if y != x { assert(self.fat_ok(g, y)); }
            if t2.nodes.contains_key(y) && y != a && y != b { assert(t.nodes[y].ch == self.nodes[y].ch); }
        }
        if self.n(p) > 2 { assert(t2.n(p) == self.n(p) - 1); assert(t2.nodes.contains_key(p)); t2.lm_fat_but(g2, p, p); }
    }
    proof fn lm_bare(self, g: G)
        requires self.lnk(g), self.n(self.rt()) == 0
        ensures self.lnk(g_flat(g, self.rt())), self.sized(g_flat(g, self.rt())), g.lv[0].len() == 0, g_flat(g, self.rt()).lv[0] == g.lv[0]
    {
        let m = self.rt();
        let g1 = g_flat(g, m);
        self.lm_root(g);
        self.lm_node(g, m);
        self.lm_none(g, 0);
        assert(g1.lv[0] =~= g.lv[0]);
        assert(g1.lv.last() =~= seq![m]);
        reveal(TS::lnk); reveal(TS::sized);
        assert forall|y: RawArenaIndex| self.nodes.contains_key(y) implies y == m by {
            self.lm_node(g, y);
            if y != m { self.lm_none(g, (g.ht)(y)); }
        }
        assert forall|l: RawArenaIndex| !#[trigger] self.leaves.contains_key(l) by { if self.leaves.contains_key(l) { self.lm_leaf(g, l); } }
        assert forall|hh: int, ii: int| #[trigger] self.lvl_ok(g1, hh, ii) by {}
        assert forall|ii: int| #[trigger] self.lfl_ok(g1, ii) by {}
        assert forall|y: RawArenaIndex| #[trigger] self.node_ok(g1, y) by { assert(self.node_ok(g, y)); }
        assert forall|y: RawArenaIndex| #[trigger] self.size_ok(g1, y) by {}
        assert forall|l: RawArenaIndex| #[trigger] self.leaf_ok(g1, l) by {}
    }
    // this tree is t but that what is under the root does not name the root as its parent yet
    spec fn stale(self, t: TS<B>) -> bool {
        let m = t.rt();
        &&& self.root == t.root && self.nodes.dom() == t.nodes.dom() && self.leaves.dom() == t.leaves.dom()
        &&& forall|y: RawArenaIndex| t.nodes.contains_key(y) ==> (#[trigger] self.nodes[y]).ch == t.nodes[y].ch
            && (y != m ==> self.nodes[y].slot == t.nodes[y].slot && (t.nodes[y].par != Some(t.root) ==> self.nodes[y].par == t.nodes[y].par))
        &&& forall|l: RawArenaIndex| t.leaves.contains_key(l) ==> (#[trigger] self.leaves[l]).elem == t.leaves[l].elem
            && (t.leaves[l].parent != m ==> self.leaves[l].parent == t.leaves[l].parent)
    }
    spec fn among(ch: Seq<Child<B>>, j: int, a: ArenaIndex) -> bool { exists|i: int| 0 <= i < j && (#[trigger] ch[i]).arena == a }
    // the first j of ch name p as their parent
    spec fn repar(self, ch: Seq<Child<B>>, j: int, p: RawArenaIndex) -> TS<B> {
        TS {
            nodes: self.nodes.map_entries(|y: RawArenaIndex, x: NodeS<B>| if Self::among(ch, j, ArenaIndex::Internal(y)) { NodeS { par: Some(ArenaIndex::Internal(p)), ..x } } else { x }),
            leaves: self.leaves.map_entries(|l: RawArenaIndex, x: LeafNode<B::Elem>| if Self::among(ch, j, ArenaIndex::Leaf(l)) { LeafNode { elem: x.elem, parent: p } } else { x }),
            root: self.root,
        }
    }
    proof fn lm_repar_id(self, ch: Seq<Child<B>>, p: RawArenaIndex)
        ensures self.repar(ch, 0, p) == self
    { assert(self.repar(ch, 0, p).nodes =~= self.nodes); assert(self.repar(ch, 0, p).leaves =~= self.leaves); }
    proof fn lm_repar_step(self, ch: Seq<Child<B>>, j: int, p: RawArenaIndex)
        requires 0 <= j < ch.len(), self.has(ch[j].arena)
        ensures ({
            let t = self.repar(ch, j, p);
            let u = self.repar(ch, j + 1, p);
            let a = ch[j].arena;
            &&& t.has(a)
            &&& a is Internal ==> u == (TS { nodes: t.nodes.insert(a.ix(), NodeS { par: Some(ArenaIndex::Internal(p)), ..t.nodes[a.ix()] }), ..t })
            &&& a is Leaf ==> u == (TS { leaves: t.leaves.insert(a.ix(), LeafNode { elem: t.leaves[a.ix()].elem, parent: p }), ..t })
        })
    {
        let t = self.repar(ch, j, p);
        let u = self.repar(ch, j + 1, p);
        let a = ch[j].arena;
        assert forall|x: ArenaIndex| #[trigger] Self::among(ch, j + 1, x) == (Self::among(ch, j, x) || x == a) by {}
        if a is Internal {
            assert(u.nodes =~= t.nodes.insert(a.ix(), NodeS { par: Some(ArenaIndex::Internal(p)), ..t.nodes[a.ix()] }));
            assert(u.leaves =~= t.leaves);
        } else {
            assert(u.leaves =~= t.leaves.insert(a.ix(), LeafNode { elem: t.leaves[a.ix()].elem, parent: p }));
            assert(u.nodes =~= t.nodes);
        }
    }
}
impl<B: BTreeTrait> TS<B> {
    // what is in s leads to what is in s, and to no leaf
    spec fn shut1(self, s: Set<RawArenaIndex>, y: RawArenaIndex) -> bool {
        s.contains(y) && self.nodes.contains_key(y) ==> forall|k: int| 0 <= k < self.n(y) ==> match (#[trigger] self.nodes[y].ch[k]).arena {
            ArenaIndex::Internal(z) => s.contains(z),
            ArenaIndex::Leaf(l) => !self.leaves.contains_key(l),
        }
    }
    #[verifier::opaque]
    spec fn shut(self, s: Set<RawArenaIndex>) -> bool { forall|y: RawArenaIndex| #[trigger] self.shut1(s, y) }
    // nodes of s, and all below them, were taken out of o
    spec fn swept1(self, o: TS<B>, s: Set<RawArenaIndex>, y: RawArenaIndex) -> bool {
        &&& self.nodes.contains_key(y) ==> o.nodes.contains_key(y) && self.nodes[y] == o.nodes[y]
        &&& o.nodes.contains_key(y) && !self.nodes.contains_key(y) ==> s.contains(y) && forall|k: int| 0 <= k < o.n(y) ==> match (#[trigger] o.nodes[y].ch[k]).arena {
            ArenaIndex::Internal(z) => !self.nodes.contains_key(z),
            _ => true,
        }
    }
    #[verifier::opaque]
    spec fn swept(self, o: TS<B>, s: Set<RawArenaIndex>) -> bool { self.root == o.root && self.leaves == o.leaves && forall|y: RawArenaIndex| #[trigger] self.swept1(o, s, y) }
    proof fn lm_swept_self(self, s: Set<RawArenaIndex>)
        ensures self.swept(self, s), forall|st: Seq<ArenaIndex>| st.len() == 1 && st[0] is Internal && s.contains(st[0].ix()) ==> #[trigger] self.sweeping(self, s, st)
    {
        reveal(TS::swept); reveal(TS::sweeping);
        assert forall|st: Seq<ArenaIndex>| st.len() == 1 && st[0] is Internal && s.contains(st[0].ix()) implies #[trigger] self.sweeping(self, s, st) by {
            assert forall|y: RawArenaIndex| #[trigger] self.sweep1(self, s, st, y) by {}
        }
    }
    spec fn sweep1(self, o: TS<B>, s: Set<RawArenaIndex>, st: Seq<ArenaIndex>, y: RawArenaIndex) -> bool {
        &&& self.nodes.contains_key(y) ==> o.nodes.contains_key(y) && self.nodes[y] == o.nodes[y]
        &&& o.nodes.contains_key(y) && !self.nodes.contains_key(y) ==> s.contains(y) && forall|k: int| 0 <= k < o.n(y) ==> match (#[trigger] o.nodes[y].ch[k]).arena {
            ArenaIndex::Internal(z) => !self.nodes.contains_key(z) || st.contains(ArenaIndex::Internal(z)),
            _ => true,
        }
    }
    spec fn sweep2(self, s: Set<RawArenaIndex>, a: ArenaIndex) -> bool {
        match a { ArenaIndex::Internal(z) => s.contains(z), ArenaIndex::Leaf(l) => !self.leaves.contains_key(l) }
    }
    // the same, with what is on the stack still to come
    #[verifier::opaque]
    spec fn sweeping(self, o: TS<B>, s: Set<RawArenaIndex>, st: Seq<ArenaIndex>) -> bool {
        &&& self.root == o.root && self.leaves == o.leaves
        &&& forall|y: RawArenaIndex| #[trigger] self.sweep1(o, s, st, y)
        &&& forall|k: int| 0 <= k < st.len() ==> self.sweep2(s, #[trigger] st[k])
    }
    proof fn lm_sweeping_pop(self, o: TS<B>, s: Set<RawArenaIndex>, st: Seq<ArenaIndex>, x: ArenaIndex)
        requires self.sweeping(o, s, st.push(x))
        ensures self.sweep2(s, x), x is Leaf ==> self.sweeping(o, s, st), x is Internal && !self.nodes.contains_key(x.ix()) ==> self.sweeping(o, s, st)
    {
        reveal(TS::sweeping);
        let sx = st.push(x);
        assert(sx[st.len() as int] == x);
        assert forall|k: int| 0 <= k < st.len() implies self.sweep2(s, #[trigger] st[k]) by { assert(sx[k] == st[k]); }
        if x is Leaf || !self.nodes.contains_key(x.ix()) {
            assert forall|y: RawArenaIndex| #[trigger] self.sweep1(o, s, st, y) by {
                assert(self.sweep1(o, s, sx, y));
                assert forall|z: RawArenaIndex| sx.contains(ArenaIndex::Internal(z)) && self.nodes.contains_key(z) implies st.contains(ArenaIndex::Internal(z)) by {
                    let k = choose|k: int| 0 <= k < sx.len() && sx[k] == ArenaIndex::Internal(z);
                    if k < st.len() { assert(st[k] == ArenaIndex::Internal(z)); }
                }
            }
        }
    }
    proof fn lm_sweeping_push(self, o: TS<B>, s: Set<RawArenaIndex>, st: Seq<ArenaIndex>, x: ArenaIndex)
        requires self.sweeping(o, s, st.push(x)), x is Internal, self.nodes.contains_key(x.ix()), o.shut(s)
        ensures (TS { nodes: self.nodes.remove(x.ix()), ..self }).sweeping(o, s, st + arenas(self.nodes[x.ix()].ch))
    {
        reveal(TS::sweeping); reveal(TS::shut);
        let sx = st.push(x);
        let ch = self.nodes[x.ix()].ch;
        let sy = st + arenas(ch);
        let t = TS { nodes: self.nodes.remove(x.ix()), ..self };
        assert(sx[st.len() as int] == x);
        assert(self.sweep1(o, s, sx, x.ix())); assert(o.shut1(s, x.ix()));
        assert forall|k: int| 0 <= k < sy.len() implies t.sweep2(s, #[trigger] sy[k]) by {
            if k < st.len() { assert(sx[k] == sy[k]); } else { assert(sy[k] == o.nodes[x.ix()].ch[k - st.len()].arena); }
        }
        assert forall|z: RawArenaIndex| sx.contains(ArenaIndex::Internal(z)) && t.nodes.contains_key(z) implies sy.contains(ArenaIndex::Internal(z)) by {
            let k = choose|k: int| 0 <= k < sx.len() && sx[k] == ArenaIndex::Internal(z);
            if k < st.len() { assert(sy[k] == ArenaIndex::Internal(z)); }
        }
        assert forall|y: RawArenaIndex| #[trigger] t.sweep1(o, s, sy, y) by {
            assert(self.sweep1(o, s, sx, y));
            if y == x.ix() {
                assert forall|k: int| 0 <= k < o.n(y) implies match (#[trigger] o.nodes[y].ch[k]).arena {
                    ArenaIndex::Internal(z) => !t.nodes.contains_key(z) || sy.contains(ArenaIndex::Internal(z)),
                    _ => true,
                } by { assert(sy[st.len() + k] == o.nodes[y].ch[k].arena); }
            }
        }
    }
    proof fn lm_swept_end(self, o: TS<B>, s: Set<RawArenaIndex>)
        requires self.sweeping(o, s, Seq::empty())
        ensures self.swept(o, s)
    { reveal(TS::sweeping); reveal(TS::swept); assert forall|y: RawArenaIndex| #[trigger] self.swept1(o, s, y) by { assert(self.sweep1(o, s, Seq::empty(), y)); } }
    // a childless node
    proof fn lm_sweep_one(self, t: TS<B>, m: RawArenaIndex)
        requires t.swept(self, only(m)), self.nodes.contains_key(m), !t.nodes.contains_key(m)
        ensures t.nodes =~= self.nodes.remove(m), t.leaves == self.leaves, t.root == self.root
    {
        reveal(TS::swept);
        assert forall|y: RawArenaIndex| t.nodes.contains_key(y) == self.nodes.remove(m).contains_key(y) && (t.nodes.contains_key(y) ==> #[trigger] t.nodes[y] == self.nodes[y]) by { assert(t.swept1(self, only(m), y)); assert(only(m).contains(y) == (y == m)); }
        assert forall|y: RawArenaIndex| #[trigger] t.nodes.contains_key(y) == self.nodes.remove(m).contains_key(y) by { assert(t.swept1(self, only(m), y)); assert(only(m).contains(y) == (y == m)); }
        assert(t.nodes.dom() =~= self.nodes.remove(m).dom());
    }
    proof fn lm_shut_one(self, m: RawArenaIndex)
        requires self.n(m) == 0
        ensures self.shut(only(m))
    { reveal(TS::shut); assert forall|y: RawArenaIndex| #[trigger] self.shut1(only(m), y) by {} }
}
spec fn only(m: RawArenaIndex) -> Set<RawArenaIndex> { set![m] }
spec fn arenas<B: BTreeTrait>(ch: Seq<Child<B>>) -> Seq<ArenaIndex> { ch.map_values(|c: Child<B>| c.arena) }
impl<B: BTreeTrait> BTree<B> {
    // the tree holds what it held
    spec fn settled(&self, o: &Self) -> bool {
        &&& self.inv() && self.ts().same_leaves(o.ts()) && self.order() == o.order() && self.uses(o) && self.root == o.root
    }
    // all is well but for node m, which may be without children
    spec fn mend(&self, m: RawArenaIndex) -> bool {
        let t = self.ts();
        &&& t.lnk(self.g@) && t.sized_but(self.g@, m) && t.not_full() && t.elems_ok() && t.caches_ok() && t.root_cache_ok(self.root_cache)
        &&& t.nodes.contains_key(m) && (t.n(m) > 0 || B::exact0() || m == t.rt())
    }
    // the same, where the entry of m in its parent, or of the parent, may still be wrong
    spec fn mends(&self, m: RawArenaIndex) -> bool {
        let t = self.ts();
        &&& t.lnk(self.g@) && t.sized_but(self.g@, m) && t.not_full() && t.elems_ok()
        &&& t.nodes.contains_key(m) && (t.n(m) > 0 || B::exact0() || m == t.rt())
        &&& if m == t.rt() { t.caches_ok() && t.root_cache_ok(self.root_cache) } else { t.cx(ArenaIndex::Internal(t.par(ArenaIndex::Internal(m)))) }
    }
//@ code src/lib.rs "BTree::reset_children_parent_pointer" tags=C04,C08,C16
    fn reset_children_parent_pointer(&mut self, parent_idx: ArenaIndex)«
        requires parent_idx is Internal, old(self).ts().has(parent_idx),
            forall|k: int| 0 <= k < old(self).ts().n(parent_idx.ix()) ==> old(self).ts().has((#[trigger] old(self).ts().nodes[parent_idx.ix()].ch[k]).arena),
        ensures final(self).g == old(self).g, final(self).root_cache == old(self).root_cache, final(self).uses(old(self)),
            /*C04*/ final(self).ts() == old(self).ts().repar(old(self).ts().nodes[parent_idx.ix()].ch, old(self).ts().n(parent_idx.ix()), parent_idx.ix())»
    {
        «let ghost t0 = self.ts(); let ghost p = parent_idx.ix(); let ghost ch = t0.nodes[p].ch;
        proof { assert(t0.nodes[p] == ns(self.in_nodes@[p])); t0.lm_repar_id(ch, p); }»
        let parent = self.in_nodes.get(parent_idx.unwrap_internal()).unwrap();
        let children = vx_clone(&parent.children);
        for vx_k in 0..children.len()
            «invariant parent_idx == ArenaIndex::Internal(p), children@ == ch, self.ts() == t0.repar(ch, vx_k as int, p), self.g == old(self).g, self.root_cache == old(self).root_cache,
                self.uses(old(self)), forall|k: int| 0 <= k < ch.len() ==> t0.has((#[trigger] ch[k]).arena),»
        {
            let child = &children[vx_k];
            «proof { t0.lm_repar_step(ch, vx_k as int, p); assert(t0.has(ch[vx_k as int].arena)); }
            let ghost t1 = self.ts(); let ghost a = child.arena; let ghost t2 = t0.repar(ch, vx_k + 1, p);»
            match child.arena {
                ArenaIndex::Leaf(_) => {
                    let child = self.get_leaf_mut(child.arena);
                    child.parent = parent_idx.unwrap_internal();
                    «proof { assert(self.ts().leaves =~= t2.leaves); assert(self.ts().nodes =~= t2.nodes); }»
                }
                ArenaIndex::Internal(_) => {
                    «proof { assert(t1.nodes[a.ix()] == ns(self.in_nodes@[a.ix()])); }»
                    let child = self.get_internal_mut(child.arena);
                    child.parent = Some(parent_idx);
                    «proof { assert(self.ts().nodes =~= t2.nodes); assert(self.ts().leaves =~= t2.leaves); }»
                }
            }
        }
    }
//@ end
//@ code src/lib.rs "BTree::pair_neighbor" tags=C04,C08,C16
    fn pair_neighbor(&self, this: ArenaIndex) -> «(r:» Option<(Idx, Idx)>«)
        requires self.ts().lnk(self.g@), this is Internal, self.ts().has(this), this != self.root
        ensures match r {
            None => self.ts().n(self.ts().par(this)) == 1,
            Some((a, b)) => /*C04*/ a.arena is Internal && b.arena is Internal && self.ts().beside(self.g@, a.arena.ix(), b.arena.ix()) && (a.arena == this || b.arena == this)
                && a.arr == self.ts().nodes[a.arena.ix()].slot && b.arr == self.ts().nodes[b.arena.ix()].slot,
        }»
    {
        «let ghost t = self.ts(); let ghost g = self.g@; let ghost p = t.par(this);
        proof {
            t.lm_root(g); t.lm_par(g, this); t.lm_node(g, this.ix()); t.lm_node(g, p);
            assert(t.nodes[this.ix()] == ns(self.in_nodes@[this.ix()]));
            assert(t.nodes[p] == ns(self.in_nodes@[p]));
            let k = t.nodes[this.ix()].slot as int;
            if k > 0 { t.lm_child(g, p, k - 1); } else if t.n(p) > 1 { t.lm_child(g, p, 1); }
        }»
        let node = self.get_internal(this);
        let arr = node.parent_slot as usize;
        let parent = self.get_internal(node.parent.unwrap());
        if arr == 0 {
            parent
                .children
                .get(1)
                .map(|x«: &Child<B>»| «-> (r: (Idx, Idx)) ensures r == (Idx { arena: this, arr: arr as u8 }, Idx { arena: x.arena, arr: 1 }) {» (Idx::new(this, arr as u8), Idx::new(x.arena, 1)) «}»)
        } else {
            parent
                .children
                .get(arr - 1)
                .map(|x«: &Child<B>»| «-> (r: (Idx, Idx)) requires 0 < arr < 12 ensures r == (Idx { arena: x.arena, arr: (arr - 1) as u8 }, Idx { arena: this, arr: arr as u8 }) {» (Idx::new(x.arena, arr as u8 - 1), Idx::new(this, arr as u8)) «}»)
        }
    }
//@ end
//@ code src/lib.rs "BTree::purge" tags=C04,C08,C09,C16
    fn purge(&mut self, index: ArenaIndex«, Ghost(s): Ghost<Set<RawArenaIndex>>»)«
        requires index is Internal, s.contains(index.ix()), old(self).ts().shut(s)
        ensures final(self).g == old(self).g, final(self).root_cache == old(self).root_cache, final(self).root == old(self).root, final(self).leaf_nodes@ == old(self).leaf_nodes@,
            final(self).in_nodes.used() == old(self).in_nodes.used(), final(self).leaf_nodes.used() == old(self).leaf_nodes.used(),
            /*C04*/ final(self).ts().swept(old(self).ts(), s), !final(self).ts().nodes.contains_key(index.ix())»
    {
        let mut stack = vec![index];
        «let ghost t0 = self.ts(); let ghost mut pp = stack@;
        proof { assert(stack@ =~= seq![index]); self.lm_ts(); t0.lm_swept_self(s); }»
        while let Some(x) = stack.pop()
            «invariant_except_break
                pp == stack@, index is Internal, s.contains(index.ix()), t0 == old(self).ts(), t0.shut(s),
                self.g == old(self).g, self.root_cache == old(self).root_cache, self.root == old(self).root, self.leaf_nodes@ == old(self).leaf_nodes@,
                self.in_nodes.used() == old(self).in_nodes.used(), self.leaf_nodes.used() == old(self).leaf_nodes.used(),
                self.ts().sweeping(t0, s, pp),
                !self.ts().nodes.contains_key(index.ix()) || pp.contains(index),
            ensures
                self.g == old(self).g, self.root_cache == old(self).root_cache, self.root == old(self).root, self.leaf_nodes@ == old(self).leaf_nodes@,
                self.in_nodes.used() == old(self).in_nodes.used(), self.leaf_nodes.used() == old(self).leaf_nodes.used(),
                self.ts().sweeping(t0, s, pp), pp.len() == 0, !self.ts().nodes.contains_key(index.ix()) || pp.contains(index),
            decreases self.in_nodes@.dom().len(), stack@.len()»
        {
            «let ghost t1 = self.ts(); let ghost p0 = pp;
            proof { assert(stack@ == p0.drop_last() && x == p0.last()); self.lm_ts(); self.in_nodes.axiom_len(); pp = stack@; assert(p0 =~= stack@.push(x)); assert(p0[p0.len() - 1] == x);
                t1.lm_sweeping_pop(t0, s, stack@, x); if stack@.contains(index) {} else if p0.contains(index) { let k = choose|k: int| 0 <= k < p0.len() && p0[k] == index; if k < p0.len() - 1 { assert(stack@[k] == index); } } }»
            if let ArenaIndex::Leaf(index) = x {
                self.leaf_nodes.remove(index);
                «proof { assert(self.ts() == t1); }»
                continue;
            }
            let Some(node) = self.in_nodes.remove(x.unwrap()) else {
                «proof { assert(self.ts() == t1); }»
                continue;
            };
            «let ghost ch = ns(node).ch; let ghost st = stack@; proof { assert(t1.nodes[x.ix()] == ns(node)); assert(self.ts().nodes =~= t1.nodes.remove(x.ix())); assert(self.ts() == TS { nodes: t1.nodes.remove(x.ix()), ..t1 });
                assert(ch.subrange(0, 0) =~= Seq::empty()); assert(st + arenas::<B>(Seq::empty()) =~= st); }»
            for vx_k in 0..node.children.len()
                «invariant ns(node).ch == ch, stack@ == st + arenas(ch.subrange(0, vx_k as int)),»
            {
                let x = &node.children[vx_k];
                stack.push(x.arena);
                «proof { assert(ch.subrange(0, vx_k + 1) =~= ch.subrange(0, vx_k as int).push(*x)); assert(arenas(ch.subrange(0, vx_k + 1)) =~= arenas(ch.subrange(0, vx_k as int)).push(x.arena)); assert(stack@ =~= st + arenas(ch.subrange(0, vx_k + 1))); }»
            }
            «proof { assert(ch.subrange(0, ch.len() as int) =~= ch); pp = stack@; t1.lm_sweeping_push(t0, s, st, x);
                if st.contains(index) { let k = choose|k: int| 0 <= k < st.len() && st[k] == index; assert(pp[k] == index); } }»
        }
        «proof { assert(pp =~= Seq::empty()); self.ts().lm_swept_end(t0, s); }»
    }
//@ end
//@ code src/lib.rs "BTree::try_reduce_levels" tags=C04,C08,C05,C16,C02
    fn try_reduce_levels(&mut self)«
        requires old(self).mend(old(self).ts().rt())
        ensures /*C04 C05 C08*/ final(self).settled(old(self)), /*C02*/ old(self).ts().fat_but(old(self).g@, old(self).ts().rt()) ==> final(self).ts().fat(final(self).g@)»
    {
        «let ghost t0 = self.ts(); let ghost mut tt = t0; let ghost m = t0.rt(); let ghost fat = t0.fat_but(self.g@, m);
        proof { t0.lm_root(self.g@); t0.lm_same_self(); }»
        let mut reduced = false;
        while self.get_internal(self.root).children.len() == 1
            «invariant
                tt.lnk(self.g@), tt.sized_but(self.g@, m), tt.not_full(), tt.elems_ok(), tt.caches_ok(), tt.root_cache_ok(self.root_cache),
                self.order() == old(self).order(), self.uses(old(self)), self.root == old(self).root, m == tt.rt(), self.root == ArenaIndex::Internal(m), tt.root == self.root,
                self.in_nodes@.contains_key(m), tt.same_leaves(t0), fat ==> tt.fat_but(self.g@, m),
                !reduced ==> self.ts() == tt, reduced ==> self.ts().stale(tt) && tt.nodes[m].par is None && tt.nodes[m].slot == 255,
            ensures tt.n(m) == 1 ==> tt.nodes[m].ch[0].arena is Leaf
            decreases self.g@.lv.len()»
        {
            let root = self.get_internal(self.root);
            «proof { assert(self.ts().nodes[m] == ns(self.in_nodes@[m])); assert(self.ts().nodes[m].ch == tt.nodes[m].ch); }»
            if root.is_child_leaf() {
                break;
            }
            «let ghost g = self.g@; let ghost t1 = self.ts(); let ghost c = tt.nodes[m].ch[0].arena.ix();
            proof {
                assert(t1.nodes[m] == ns(self.in_nodes@[m]));
                assert(t1.nodes[m].ch == tt.nodes[m].ch);
                tt.lm_root(g); tt.lm_hoist(g); tt.lm_sized_but(g, m, c); if fat { tt.lm_hoist_fat(g); }
                assert(t1.nodes[c] == ns(self.in_nodes@[c]));
            }»
            let child_arena = root.children[0].arena;
            let child = self.in_nodes.remove(child_arena.unwrap_internal()).unwrap();
            let root = self.get_internal_mut(self.root);
            let _ = vx_replace(root, child);
            reduced = true;
            «proof {
                let t3 = tt.hoist(g);
                self.g = Ghost(g_hoist(g, m));
                assert(self.ts().nodes.dom() =~= t3.nodes.dom());
                assert(self.ts().leaves.dom() =~= t3.leaves.dom());
                assert forall|y: RawArenaIndex| t3.nodes.contains_key(y) implies (#[trigger] self.ts().nodes[y]).ch == t3.nodes[y].ch
                    && (y != m ==> self.ts().nodes[y].slot == t3.nodes[y].slot && (t3.nodes[y].par != Some(t3.root) ==> self.ts().nodes[y].par == t3.nodes[y].par)) by {
                    if y == m { assert(self.in_nodes@[m] == child); }
                    else { assert(self.ts().nodes[y] == t1.nodes[y]); }
                }
                assert forall|l: RawArenaIndex| t3.leaves.contains_key(l) implies (#[trigger] self.ts().leaves[l]).elem == t3.leaves[l].elem
                    && (t3.leaves[l].parent != m ==> self.ts().leaves[l].parent == t3.leaves[l].parent) by {
                    tt.lm_leaf(g, l);
                }
                t3.lm_sized_any(self.g@, m);
                t3.lm_same_trans(tt, t0);
                tt = t3;
            }»
        }
        if reduced {
            let root_idx = self.root;
            «let ghost t4 = self.ts(); proof { assert(t4.nodes[m] == ns(self.in_nodes@[m])); }»
            let root = self.get_internal_mut(self.root);
            root.parent = None;
            root.parent_slot = u8::MAX;
            «let ghost t5 = self.ts();
            proof {
                assert(t5.nodes[m].ch == tt.nodes[m].ch);
                assert forall|k: int| 0 <= k < t5.n(m) implies t5.has((#[trigger] t5.nodes[m].ch[k]).arena) by { tt.lm_child(self.g@, m, k); }
            }»
            self.reset_children_parent_pointer(root_idx);
            «proof {
                let u = self.ts();
                let g = self.g@;
                tt.lm_root(g);
                assert forall|y: RawArenaIndex| tt.nodes.contains_key(y) implies #[trigger] u.nodes[y] == tt.nodes[y] by {
                    let a = ArenaIndex::Internal(y);
                    assert(t5.nodes[y] == (if y == m { NodeS { par: None, slot: 255, ch: t4.nodes[m].ch } } else { t4.nodes[y] }));
                    if y == m {
                        if TS::<B>::among(t5.nodes[m].ch, t5.n(m), a) { let k = choose|k: int| 0 <= k < t5.n(m) && (#[trigger] t5.nodes[m].ch[k]).arena == a; tt.lm_child(g, m, k); assert(false); }
                    } else {
                        tt.lm_par(g, a); tt.lm_node(g, y);
                        if tt.par(a) == m { assert(t5.nodes[m].ch[plc(g, a) - (g.fst)(m)].arena == a); }
                        else if TS::<B>::among(t5.nodes[m].ch, t5.n(m), a) { let k = choose|k: int| 0 <= k < t5.n(m) && (#[trigger] t5.nodes[m].ch[k]).arena == a; tt.lm_child(g, m, k); assert(false); }
                    }
                }
                assert forall|l: RawArenaIndex| tt.leaves.contains_key(l) implies #[trigger] u.leaves[l] == tt.leaves[l] by {
                    let a = ArenaIndex::Leaf(l);
                    tt.lm_par(g, a);
                    if tt.par(a) == m { assert(t5.nodes[m].ch[plc(g, a) - (g.fst)(m)].arena == a); }
                    else if TS::<B>::among(t5.nodes[m].ch, t5.n(m), a) { let k = choose|k: int| 0 <= k < t5.n(m) && (#[trigger] t5.nodes[m].ch[k]).arena == a; tt.lm_child(g, m, k); assert(false); }
                }
                assert(u.nodes.dom() =~= tt.nodes.dom());
                assert(u.leaves.dom() =~= tt.leaves.dom());
                assert(u.nodes =~= tt.nodes);
                assert(u.leaves =~= tt.leaves);
            }»
        }
        «proof {
            assert(self.ts() == tt);
            if fat { tt.lm_root(self.g@); tt.lm_node(self.g@, m); tt.lm_fat_but(self.g@, m, m); if tt.n(m) == 1 { tt.lm_child(self.g@, m, 0); } assert(tt.fat_ok(self.g@, m)); }
            if tt.n(m) == 0 {
                let g9 = self.g@;
                tt.lm_bare(g9); self.g = Ghost(g_flat(g9, m));
                if fat { reveal(TS::fat); assert forall|y: RawArenaIndex| #[trigger] tt.fat_ok(self.g@, y) by { assert(tt.fat_ok(g9, y)); } }
            } else { tt.lm_sized(self.g@, m); }
        }»
    }
//@ end
}
impl<B: BTreeTrait> TS<B> {
    proof fn lm_same_trans(self, o: TS<B>, p: TS<B>)
        requires self.same_leaves(o), o.same_leaves(p)
        ensures self.same_leaves(p)
    { reveal(TS::same_leaves); assert forall|l: RawArenaIndex| #[trigger] self.same_leaf(p, l) by { assert(self.same_leaf(o, l)); assert(o.same_leaf(p, l)); } }
    proof fn lm_same_self(self)
        ensures self.same_leaves(self)
    { reveal(TS::same_leaves); assert forall|l: RawArenaIndex| #[trigger] self.same_leaf(self, l) by {} }
}
