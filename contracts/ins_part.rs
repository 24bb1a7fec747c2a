// Splitting nodes and inserting leaves. (C03, C04, C05, C07, C16)
//@ rw HeaplessVec::from_slice($a).unwrap() ==> vx_from_slice($a)
//@ rw heapless::Vec::from_slice($a).unwrap() ==> vx_from_slice($a)
//@ rw heapless::Vec ==> HeaplessVec
//@ rw fn delete_range<T: Clone, const N: usize>($$a range: impl RangeBounds<usize> $$b) ==> fn delete_range<T: Clone, const N: usize, VxR: RangeBounds<usize>>($$a range: VxR $$b)
//@ rw for ($i_i, $i_c) in $i_s[$i_k..].iter().enumerate() { ==> for $i_i in 0..$i_s.len() - $i_k { let $i_c = &$i_s[$i_k + $i_i];
//@ rw for ($i_i, $i_c) in $p_s.iter().enumerate() { ==> for $i_i in 0..$p_s.len() { let $i_c = &$p_s[$i_i];
//@ rw core::mem::replace ==> vx_replace
//@ rw &mut self.get_internal_mut($a) ==> self.get_internal_mut($a)
//@ rw let mut cache = Default::default(); ==> let mut cache = vx_cache0::<B>();
//@ rw children: Default::default() ==> children: HeaplessVec::new()
//@ rw $p_x.children = Default::default(); ==> $p_x.children = HeaplessVec::new();
//@ rw $p_x.children.clone() ==> vx_clone(&$p_x.children)
// a fixed-capacity vector with equal copies
#[verifier::external_body]
fn vx_from_slice<T, const N: usize>(x: &[T]) -> (r: HeaplessVec<T, N>)
    requires x@.len() <= N
    ensures r@ == x@
{ unimplemented!() }
//@ code src/lib.rs "fn delete_range" tags=C16
fn delete_range<T: Clone, const N: usize, VxR: RangeBounds<usize>>(
    arr: &mut HeaplessVec<T, N>,
    range: VxR,
)«
    requires rb_valid(range, old(arr)@.len() as int)
    ensures final(arr)@ == old(arr)@.subrange(0, rb_lo(range)) + old(arr)@.subrange(rb_hi(range, old(arr)@.len() as int), old(arr)@.len() as int)»
{
    let start = match vx_start_bound(&range) {
        std::ops::Bound::Included(x) => *x,
        std::ops::Bound::Excluded(x) => x + 1,
        std::ops::Bound::Unbounded => 0,
    };
    let end = match vx_end_bound(&range) {
        std::ops::Bound::Included(x) => x + 1,
        std::ops::Bound::Excluded(x) => *x,
        std::ops::Bound::Unbounded => arr.len(),
    };
    «proof { arr.axiom_cap(); assert(arr@ =~= arr@.subrange(0, start as int) + arr@.subrange(start as int, arr@.len() as int)); }»
    if start == end {
        return;
    }
    if end - start == 1 {
        «proof { assert(arr@.remove(start as int) =~= arr@.subrange(0, start as int) + arr@.subrange(end as int, arr@.len() as int)); }»
        arr.remove(start);
        return;
    }
    let mut ans = vx_from_slice(&arr[..start]);
    ans.extend_from_slice(&arr[end..]).unwrap();
    *arr = ans;
}
//@ end
spec fn hit(g: G, h: int, a: int, b: int, x: ArenaIndex) -> bool {
    match x {
        ArenaIndex::Leaf(l) => h == 0 && a <= (g.lpos)(l) < b && 0 <= (g.lpos)(l) < g.lv[0].len() && g.lv[0][(g.lpos)(l)] == l,
        ArenaIndex::Internal(y) => 1 <= h < g.lv.len() && (g.ht)(y) == h && a <= (g.pos)(y) < b && 0 <= (g.pos)(y) < g.lv[h].len() && g.lv[h][(g.pos)(y)] == y,
    }
}
// x put at place i of level h, under p; f is the place of its first child
spec fn g_ins(g: G, h: int, i: int, p: RawArenaIndex, x: RawArenaIndex, f: int) -> G {
    G {
        lv: g.lv.update(h, g.lv[h].insert(i, x)),
        ht: if h == 0 { g.ht } else { |y: RawArenaIndex| if y == x { h } else { (g.ht)(y) } },
        pos: if h == 0 { g.pos } else {
            |y: RawArenaIndex| if y == x { i } else if (g.ht)(y) == h && (g.pos)(y) >= i { (g.pos)(y) + 1 } else { (g.pos)(y) }
        },
        fst: |y: RawArenaIndex| if h > 0 && y == x { f } else if (g.ht)(y) == h + 1 && (g.pos)(y) > (g.pos)(p) { (g.fst)(y) + 1 } else { (g.fst)(y) },
        lpos: if h > 0 { g.lpos } else { |y: RawArenaIndex| if y == x { i } else if (g.lpos)(y) >= i { (g.lpos)(y) + 1 } else { (g.lpos)(y) } },
    }
}
impl<B: BTreeTrait> TS<B> {
    // the nodes (or leaves) at the places a..b of level h go under np, with slots counted from place off
    spec fn moved(self, g: G, h: int, a: int, b: int, np: RawArenaIndex, off: int) -> TS<B> {
        TS {
            nodes: self.nodes.map_entries(|y: RawArenaIndex, x: NodeS<B>| if hit(g, h, a, b, ArenaIndex::Internal(y)) {
                NodeS { par: Some(ArenaIndex::Internal(np)), slot: ((g.pos)(y) - off) as u8, ch: x.ch }
            } else { x }),
            leaves: self.leaves.map_entries(|l: RawArenaIndex, x: LeafNode<B::Elem>| if hit(g, h, a, b, ArenaIndex::Leaf(l)) { LeafNode { elem: x.elem, parent: np } } else { x }),
            root: self.root,
        }
    }
    spec fn setch(self, m: RawArenaIndex, ch: Seq<Child<B>>) -> TS<B> {
        TS { nodes: self.nodes.insert(m, NodeS { ch: ch, ..self.nodes[m] }), ..self }
    }
    // what is right of s in node m goes to the new node r, which no parent lists yet
    spec fn cut(self, g: G, m: RawArenaIndex, s: int, r: RawArenaIndex) -> TS<B> {
        let x = self.nodes[m];
        let n = x.ch.len() as int;
        let t = self.setch(m, x.ch.subrange(0, s));
        TS { nodes: t.nodes.insert(r, NodeS { par: x.par, slot: 255, ch: x.ch.subrange(s, n) }), ..t }
            .moved(g, (g.ht)(m) - 1, (g.fst)(m) + s, (g.fst)(m) + n, r, (g.fst)(m) + s)
    }
    // entry k of p gets the summary c1, after it comes the entry x
    spec fn paste(self, g1: G, p: RawArenaIndex, k: int, c1: B::Cache, x: Child<B>) -> TS<B> {
        let ch = self.nodes[p].ch;
        let ch1 = ch.update(k, Child { arena: ch[k].arena, cache: c1 }).insert(k + 1, x);
        self.setch(p, ch1).moved(g1, (g1.ht)(p) - 1, (g1.fst)(p) + k + 1, (g1.fst)(p) + ch1.len(), p, (g1.fst)(p))
    }
    proof fn lm_split(self, g: G, m: RawArenaIndex, s: int, r: RawArenaIndex, c1: B::Cache, c2: B::Cache)
        requires self.lnk(g), self.nodes.contains_key(m), m != self.rt(), 0 <= s <= self.n(m), !self.nodes.contains_key(r),
            self.n(self.par(ArenaIndex::Internal(m))) < MAX_CHILDREN_NUM,
        ensures ({
            let p = self.par(ArenaIndex::Internal(m));
            let g1 = g_ins(g, (g.ht)(m), (g.pos)(m) + 1, p, r, (g.fst)(m) + s);
            let t1 = self.cut(g, m, s, r).paste(g1, p, self.nodes[m].slot as int, c1, Child { arena: ArenaIndex::Internal(r), cache: c2 });
            t1.lnk(g1)
        })
    {
        let p = self.par(ArenaIndex::Internal(m));
        let h = (g.ht)(m);
        let i = (g.pos)(m) + 1;
        let k = self.nodes[m].slot as int;
        let g1 = g_ins(g, h, i, p, r, (g.fst)(m) + s);
        let tc = self.cut(g, m, s, r);
        let t1 = tc.paste(g1, p, k, c1, Child { arena: ArenaIndex::Internal(r), cache: c2 });
        self.lm_root(g);
        self.lm_node(g, m);
        self.lm_par(g, ArenaIndex::Internal(m));
        self.lm_node(g, p);
        reveal(TS::lnk);
        assert(t1.nodes.contains_key(r));
        assert forall|hh: int, ii: int| #[trigger] t1.lvl_ok(g1, hh, ii) by {
            assert(self.lvl_ok(g, hh, ii));
            if hh == h { assert(self.lvl_ok(g, hh, ii - 1)); }
        }
        assert forall|ii: int| #[trigger] t1.lfl_ok(g1, ii) by { assert(self.lfl_ok(g, ii)); }
        assert forall|y: RawArenaIndex| #[trigger] t1.node_ok(g1, y) by {
            assert(self.node_ok(g, y));
            if t1.nodes.contains_key(y) {
                if y != r { assert(self.nodes.contains_key(y)); }
                assert(t1.place_ok(g1, y));
                assert(t1.cover_ok(g1, y)) by {
                    if y != r && (g.pos)(y) + 1 < g.lv[(g.ht)(y)].len() { self.lm_at(g, (g.ht)(y), (g.pos)(y) + 1); }
                    if (g.pos)(m) + 1 < g.lv[h].len() { self.lm_at(g, h, (g.pos)(m) + 1); }
                    if y != r && (g.ht)(y) == h + 1 && (g.pos)(y) < (g.pos)(p) { self.lm_order(g, y, p); }
                    if y != r && (g.ht)(y) == h + 1 && (g.pos)(y) > (g.pos)(p) { self.lm_order(g, p, y); }
                }
                assert(t1.kids_ok(g1, y)) by {
                    assert forall|j: int| 0 <= j < t1.n(y) implies (#[trigger] t1.nodes[y].ch[j]).arena == aix(g1, (g1.ht)(y) - 1, (g1.fst)(y) + j) by {
                        if y != r && (g.ht)(y) == h + 1 && (g.pos)(y) < (g.pos)(p) { self.lm_order(g, y, p); }
                        if y != r && (g.ht)(y) == h + 1 && (g.pos)(y) > (g.pos)(p) { self.lm_order(g, p, y); }
                        if y == r { assert(self.nodes[m].ch[s + j].arena == aix(g, h - 1, (g.fst)(m) + s + j)); }
                        else if y == p {
                            if j <= k { assert(self.nodes[p].ch[j].arena == aix(g, h, (g.fst)(p) + j)); }
                            else if j > k + 1 { assert(self.nodes[p].ch[j - 1].arena == aix(g, h, (g.fst)(p) + j - 1)); }
                        } else { assert(self.nodes[y].ch[j].arena == aix(g, (g.ht)(y) - 1, (g.fst)(y) + j)); }
                    }
                }
                assert(t1.link_ok(g1, y)) by {
                    if y != r && y != self.rt() {
                        let q = self.par(ArenaIndex::Internal(y));
                        self.lm_node(g, q);
                        if (g.ht)(q) == h + 1 && (g.pos)(q) < (g.pos)(p) { self.lm_order(g, q, p); }
                        if (g.ht)(q) == h + 1 && (g.pos)(q) > (g.pos)(p) { self.lm_order(g, p, q); }
                        if (g.ht)(q) == h && (g.pos)(q) < (g.pos)(m) { self.lm_order(g, q, m); }
                        if (g.ht)(q) == h && (g.pos)(q) > (g.pos)(m) { self.lm_order(g, m, q); }
                    }
                }
            }
        }
        assert forall|l: RawArenaIndex| #[trigger] t1.leaf_ok(g1, l) by {
            assert(self.leaf_ok(g, l));
            if t1.leaves.contains_key(l) {
                let q = self.leaves[l].parent;
                self.lm_node(g, q);
                if (g.ht)(q) == h && (g.pos)(q) < (g.pos)(m) { self.lm_order(g, q, m); }
                if (g.ht)(q) == h && (g.pos)(q) > (g.pos)(m) { self.lm_order(g, m, q); }
            }
        }
    }
    // what a split leaves as it is
    proof fn lm_split_rest(self, g: G, m: RawArenaIndex, s: int, r: RawArenaIndex, c1: B::Cache, c2: B::Cache)
        requires self.lnk(g), self.nodes.contains_key(m), m != self.rt(), 0 <= s <= self.n(m), !self.nodes.contains_key(r),
            self.n(self.par(ArenaIndex::Internal(m))) < MAX_CHILDREN_NUM,
        ensures ({
            let p = self.par(ArenaIndex::Internal(m));
            let g1 = g_ins(g, (g.ht)(m), (g.pos)(m) + 1, p, r, (g.fst)(m) + s);
            let t1 = self.cut(g, m, s, r).paste(g1, p, self.nodes[m].slot as int, c1, Child { arena: ArenaIndex::Internal(r), cache: c2 });
            &&& self.sized(g) && 0 < s < self.n(m) ==> t1.sized(g1)
            &&& self.fat(g) && 2 <= s <= self.n(m) - 2 ==> t1.fat(g1)
            &&& t1.same_leaves(self) && t1.kept(self, m, s) && t1.root == self.root
            &&& self.roomy_but(m) && s < MAX_CHILDREN_NUM && self.n(m) - s < MAX_CHILDREN_NUM ==> t1.roomy_but(p)
            &&& t1.n(p) == self.n(p) + 1 && t1.nodes.contains_key(p) && (g1.ht)(p) == (g.ht)(m) + 1
        })
    {
        let p = self.par(ArenaIndex::Internal(m));
        let k = self.nodes[m].slot as int;
        let g1 = g_ins(g, (g.ht)(m), (g.pos)(m) + 1, p, r, (g.fst)(m) + s);
        let t1 = self.cut(g, m, s, r).paste(g1, p, k, c1, Child { arena: ArenaIndex::Internal(r), cache: c2 });
        self.lm_root(g);
        self.lm_node(g, m);
        self.lm_par(g, ArenaIndex::Internal(m));
        self.lm_node(g, p);
        if self.sized(g) && 0 < s < self.n(m) {
            reveal(TS::sized);
            assert forall|y: RawArenaIndex| #[trigger] t1.size_ok(g1, y) by { assert(self.size_ok(g, y)); }
        }
        if self.fat(g) && 2 <= s <= self.n(m) - 2 {
            reveal(TS::fat);
            assert forall|y: RawArenaIndex| #[trigger] t1.fat_ok(g1, y) by { assert(self.fat_ok(g, y)); }
        }
        if self.roomy_but(m) && s < MAX_CHILDREN_NUM && self.n(m) - s < MAX_CHILDREN_NUM {
            reveal(TS::roomy_but);
            assert forall|y: RawArenaIndex| y != p implies #[trigger] t1.roomy(y) by { assert(y != m ==> self.roomy(y)); }
        }
        reveal(TS::same_leaves);
        reveal(TS::kept);
        assert forall|l: RawArenaIndex| #[trigger] t1.same_leaf(self, l) by {}
        assert forall|l: RawArenaIndex| #[trigger] t1.kept_leaf(self, m, s, l) by {
            if self.leaves.contains_key(l) {
                let q = self.leaves[l].parent;
                self.lm_par(g, ArenaIndex::Leaf(l));
                self.lm_node(g, q);
                if (g.ht)(m) == 1 {
                    if (g.pos)(q) < (g.pos)(m) { self.lm_order(g, q, m); }
                    if (g.pos)(q) > (g.pos)(m) { self.lm_order(g, m, q); }
                    if (g.pos)(q) == (g.pos)(m) { self.lm_order(g, m, q); }
                }
            }
        }
    }
    // the leaves hold the same elements
    spec fn same_leaf(self, o: TS<B>, l: RawArenaIndex) -> bool {
        self.leaves.contains_key(l) == o.leaves.contains_key(l) && (self.leaves.contains_key(l) ==> self.leaves[l].elem == o.leaves[l].elem)
    }
    #[verifier::opaque]
    spec fn same_leaves(self, o: TS<B>) -> bool { forall|l: RawArenaIndex| #[trigger] self.same_leaf(o, l) }
    // the parents of leaves do not get more children when node m of o is split at s
    spec fn kept_leaf(self, o: TS<B>, m: RawArenaIndex, s: int, l: RawArenaIndex) -> bool {
        o.leaves.contains_key(l) ==> if o.leaves[l].parent == m {
            self.n(self.leaves[l].parent) <= s || self.n(self.leaves[l].parent) <= o.n(m) - s
        } else { self.leaves[l].parent == o.leaves[l].parent && self.n(self.leaves[l].parent) == o.n(o.leaves[l].parent) }
    }
    #[verifier::opaque]
    spec fn kept(self, o: TS<B>, m: RawArenaIndex, s: int) -> bool { forall|l: RawArenaIndex| #[trigger] self.kept_leaf(o, m, s, l) }
    #[verifier::opaque]
    spec fn roomy_but(self, m: RawArenaIndex) -> bool { forall|y: RawArenaIndex| y != m ==> #[trigger] self.roomy(y) }

    proof fn lm_split_caches(self, g: G, m: RawArenaIndex, s: int, r: RawArenaIndex, c1: B::Cache, c2: B::Cache)
        requires self.lnk(g), self.nodes.contains_key(m), m != self.rt(), 0 < s < self.n(m), !self.nodes.contains_key(r),
            self.n(self.par(ArenaIndex::Internal(m))) < MAX_CHILDREN_NUM, self.caches_ok(),
            c1 == B::sum(self.kids(m).subrange(0, s)), c2 == B::sum(self.kids(m).subrange(s, self.n(m))),
        ensures ({
            let p = self.par(ArenaIndex::Internal(m));
            let g1 = g_ins(g, (g.ht)(m), (g.pos)(m) + 1, p, r, (g.fst)(m) + s);
            let t1 = self.cut(g, m, s, r).paste(g1, p, self.nodes[m].slot as int, c1, Child { arena: ArenaIndex::Internal(r), cache: c2 });
            &&& t1.caches_ok()
            &&& t1.kc(t1.root) == self.kc(self.root)
        })
    {
        let p = self.par(ArenaIndex::Internal(m));
        let k = self.nodes[m].slot as int;
        let n = self.n(m);
        let g1 = g_ins(g, (g.ht)(m), (g.pos)(m) + 1, p, r, (g.fst)(m) + s);
        let t1 = self.cut(g, m, s, r).paste(g1, p, k, c1, Child { arena: ArenaIndex::Internal(r), cache: c2 });
        self.lm_root(g);
        self.lm_node(g, m);
        self.lm_par(g, ArenaIndex::Internal(m));
        self.lm_node(g, p);
        reveal(TS::caches_ok);
        assert(self.cache_ok(p));
        assert(self.cache_ok(m));
        assert(self.nodes[p].ch[k].cache == B::sum(self.kids(m)));
        let a = self.kids(m).subrange(0, s);
        let b = self.kids(m).subrange(s, n);
        let x = self.kids(p).subrange(0, k);
        let y = self.kids(p).subrange(k + 1, self.n(p));
        assert(self.kids(m) =~= a + b);
        assert(self.kids(p) =~= x + seq![B::sum(a + b)] + y);
        assert(t1.kids(p) =~= x + seq![c1, c2] + y);
        B::law_assoc(x, a, b, y);
        assert(t1.kids(m) =~= a);
        assert(t1.kids(r) =~= b);
        assert forall|i: int| 0 <= i < a.len() implies B::cok(#[trigger] a[i]) by { assert(a[i] == self.nodes[m].ch[i].cache); }
        assert forall|i: int| 0 <= i < b.len() implies B::cok(#[trigger] b[i]) by { assert(b[i] == self.nodes[m].ch[s + i].cache); }
        B::law_cok_sum(a);
        B::law_cok_sum(b);
        assert forall|z: ArenaIndex| self.has(z) && z != ArenaIndex::Internal(m) implies #[trigger] t1.kc(z) == self.kc(z) by {
            match z { ArenaIndex::Leaf(l) => {}, ArenaIndex::Internal(q) => { if q != p { assert(t1.nodes[q].ch == self.nodes[q].ch); } } }
        }
        assert forall|q: RawArenaIndex| #[trigger] t1.cache_ok(q) by {
            if t1.nodes.contains_key(q) {
                if q != r { assert(self.nodes.contains_key(q)); assert(self.cache_ok(q)); }
                assert forall|j: int| 0 <= j < t1.n(q) implies {
                    let c = #[trigger] t1.nodes[q].ch[j];
                    B::cok(c.cache) && c.cache == t1.kc(c.arena)
                } by {
                    if q == r { assert(t1.nodes[q].ch[j] == self.nodes[m].ch[s + j]); self.lm_child(g, m, s + j); }
                    else if q == m { assert(t1.nodes[q].ch[j] == self.nodes[m].ch[j]); self.lm_child(g, m, j); }
                    else if q == p {
                        if j < k { assert(t1.nodes[q].ch[j] == self.nodes[q].ch[j]); self.lm_child(g, p, j); }
                        else if j > k + 1 { assert(t1.nodes[q].ch[j] == self.nodes[q].ch[j - 1]); self.lm_child(g, p, j - 1); }
                    } else { assert(t1.nodes[q].ch[j] == self.nodes[q].ch[j]); self.lm_child(g, q, j); }
                }
            }
        }
    }
    // the root m split at s into l and r, which become its two children
    spec fn lift(self, g: G, s: int, l: RawArenaIndex, r: RawArenaIndex, c1: B::Cache, c2: B::Cache) -> TS<B> {
        let m = self.rt();
        let h = (g.ht)(m);
        let x = self.nodes[m];
        let n = x.ch.len() as int;
        let top = Some(ArenaIndex::Internal(m));
        let ch = seq![Child { arena: ArenaIndex::Internal(l), cache: c1 }, Child { arena: ArenaIndex::Internal(r), cache: c2 }];
        TS {
            nodes: self.nodes.insert(m, NodeS { par: None, slot: 0, ch })
                .insert(l, NodeS { par: top, slot: 0, ch: x.ch.subrange(0, s) }).insert(r, NodeS { par: top, slot: 1, ch: x.ch.subrange(s, n) }),
            ..self
        }.moved(g, h - 1, 0, s, l, 0).moved(g, h - 1, s, n, r, s)
    }
    proof fn lm_lift(self, g: G, s: int, l: RawArenaIndex, r: RawArenaIndex, c1: B::Cache, c2: B::Cache)
        requires self.lnk(g), 0 <= s <= self.n(self.rt()), !self.nodes.contains_key(r), !self.nodes.contains_key(l), l != r,
        ensures ({
            let m = self.rt();
            let g1 = g_lift(g, m, s, l, r);
            let t1 = self.lift(g, s, l, r, c1, c2);
            &&& t1.lnk(g1)
            &&& self.sized(g) && 0 < s < self.n(m) ==> t1.sized(g1)
            &&& self.fat(g) && 2 <= s <= self.n(m) - 2 ==> t1.fat(g1)
            &&& t1.same_leaves(self) && t1.kept(self, m, s) && t1.root == self.root
            &&& self.roomy_but(m) && s < MAX_CHILDREN_NUM && self.n(m) - s < MAX_CHILDREN_NUM ==> t1.not_full()
        })
    {
        let m = self.rt();
        let h = (g.ht)(m);
        let g1 = g_lift(g, m, s, l, r);
        let t1 = self.lift(g, s, l, r, c1, c2);
        self.lm_root(g);
        self.lm_node(g, m);
        reveal(TS::lnk);
        assert(g1.lv.last() =~= seq![m]);
        assert forall|hh: int, ii: int| #[trigger] t1.lvl_ok(g1, hh, ii) by { assert(self.lvl_ok(g, hh, ii)); }
        assert forall|ii: int| #[trigger] t1.lfl_ok(g1, ii) by { assert(self.lfl_ok(g, ii)); }
        assert forall|y: RawArenaIndex| #[trigger] t1.node_ok(g1, y) by {
            assert(self.node_ok(g, y));
            if t1.nodes.contains_key(y) {
                if y != r && y != l { assert(self.nodes.contains_key(y)); }
                assert(y != m && y != l && y != r ==> (g.ht)(y) < h) by { if y != m && y != l && y != r { self.lm_node(g, y); } }
                assert(t1.place_ok(g1, y));
                assert(t1.cover_ok(g1, y)) by {
                    if y != r && y != l && (g.pos)(y) + 1 < g.lv[(g.ht)(y)].len() { self.lm_at(g, (g.ht)(y), (g.pos)(y) + 1); }
                }
                assert(t1.kids_ok(g1, y)) by {
                    assert forall|j: int| 0 <= j < t1.n(y) implies (#[trigger] t1.nodes[y].ch[j]).arena == aix(g1, (g1.ht)(y) - 1, (g1.fst)(y) + j) by {
                        if y == r { assert(self.nodes[m].ch[s + j].arena == aix(g, h - 1, s + j)); }
                        else if y == l { assert(self.nodes[m].ch[j].arena == aix(g, h - 1, j)); }
                        else if y == m { }
                        else { assert(self.nodes[y].ch[j].arena == aix(g, (g.ht)(y) - 1, (g.fst)(y) + j)); }
                    }
                }
                assert(self.lvl_ok(g, h - 1, (g.pos)(l)) && self.lvl_ok(g, h - 1, (g.pos)(r)));
                assert(t1.link_ok(g1, y)) by {
                    if y != r && y != l && y != m {
                        let a = ArenaIndex::Internal(y);
                        let q = self.par(a);
                        self.lm_par(g, a); self.lm_node(g, q);
                        if q == m {
                            assert(hit(g, h - 1, 0, s, a) == ((g.pos)(y) < s));
                            assert(hit(g, h - 1, s, self.n(m), a) == ((g.pos)(y) >= s));
                            assert((g.pos)(y) < s ==> t1.nodes[y].par == Some(ArenaIndex::Internal(l)) && t1.nodes[y].slot == (g.pos)(y));
                            assert((g.pos)(y) >= s ==> t1.nodes[y].par == Some(ArenaIndex::Internal(r)) && t1.nodes[y].slot == (g.pos)(y) - s);
                            assert(t1.link_ok(g1, y));
                        } else {
                            assert((g.ht)(y) < h - 1);
                            assert(t1.nodes[y] == self.nodes[y]);
                            assert(t1.link_ok(g1, y));
                        }
                    }
                }
            }
        }
        assert forall|y: RawArenaIndex| #[trigger] t1.leaf_ok(g1, y) by {
            assert(self.leaf_ok(g, y));
            if t1.leaves.contains_key(y) { self.lm_node(g, self.leaves[y].parent); }
        }
        if self.sized(g) && 0 < s < self.n(m) {
            reveal(TS::sized);
            assert forall|y: RawArenaIndex| #[trigger] t1.size_ok(g1, y) by { assert(self.size_ok(g, y)); if self.nodes.contains_key(y) { self.lm_node(g, y); } }
        }
        if self.fat(g) && 2 <= s <= self.n(m) - 2 {
            reveal(TS::fat);
            assert forall|y: RawArenaIndex| #[trigger] t1.fat_ok(g1, y) by { assert(self.fat_ok(g, y)); }
        }
        if self.roomy_but(m) && s < MAX_CHILDREN_NUM && self.n(m) - s < MAX_CHILDREN_NUM {
            reveal(TS::roomy_but); reveal(TS::not_full);
            assert forall|y: RawArenaIndex| #[trigger] t1.roomy(y) by { assert(y != m ==> self.roomy(y)); }
        }
        reveal(TS::same_leaves);
        reveal(TS::kept);
        assert forall|y: RawArenaIndex| #[trigger] t1.same_leaf(self, y) by {}
        assert forall|y: RawArenaIndex| #[trigger] t1.kept_leaf(self, m, s, y) by {
            if self.leaves.contains_key(y) { self.lm_par(g, ArenaIndex::Leaf(y)); self.lm_node(g, self.leaves[y].parent); }
        }
    }
    proof fn lm_lift_caches(self, g: G, s: int, l: RawArenaIndex, r: RawArenaIndex, c1: B::Cache, c2: B::Cache)
        requires self.lnk(g), 0 < s < self.n(self.rt()), !self.nodes.contains_key(r), !self.nodes.contains_key(l), l != r, self.caches_ok(),
            c1 == B::sum(self.kids(self.rt()).subrange(0, s)), c2 == B::sum(self.kids(self.rt()).subrange(s, self.n(self.rt()))),
        ensures self.lift(g, s, l, r, c1, c2).caches_ok()
    {
        let m = self.rt();
        let n = self.n(m);
        let t1 = self.lift(g, s, l, r, c1, c2);
        self.lm_root(g);
        self.lm_node(g, m);
        reveal(TS::caches_ok);
        assert(self.cache_ok(m));
        let a = self.kids(m).subrange(0, s);
        let b = self.kids(m).subrange(s, n);
        assert(t1.kids(l) =~= a);
        assert(t1.kids(r) =~= b);
        assert forall|i: int| 0 <= i < a.len() implies B::cok(#[trigger] a[i]) by { assert(a[i] == self.nodes[m].ch[i].cache); }
        assert forall|i: int| 0 <= i < b.len() implies B::cok(#[trigger] b[i]) by { assert(b[i] == self.nodes[m].ch[s + i].cache); }
        B::law_cok_sum(a);
        B::law_cok_sum(b);
        assert forall|z: ArenaIndex| self.has(z) && z != ArenaIndex::Internal(m) implies #[trigger] t1.kc(z) == self.kc(z) by {
            match z { ArenaIndex::Leaf(l) => {}, ArenaIndex::Internal(q) => { assert(t1.nodes[q].ch == self.nodes[q].ch); } }
        }
        assert forall|q: RawArenaIndex| #[trigger] t1.cache_ok(q) by {
            if t1.nodes.contains_key(q) {
                if q != r && q != l { assert(self.nodes.contains_key(q)); assert(self.cache_ok(q)); }
                assert forall|j: int| 0 <= j < t1.n(q) implies {
                    let c = #[trigger] t1.nodes[q].ch[j];
                    B::cok(c.cache) && c.cache == t1.kc(c.arena)
                } by {
                    if q == r { assert(t1.nodes[q].ch[j] == self.nodes[m].ch[s + j]); self.lm_child(g, m, s + j); }
                    else if q == l { assert(t1.nodes[q].ch[j] == self.nodes[m].ch[j]); self.lm_child(g, m, j); }
                    else if q == m {} else { assert(t1.nodes[q].ch[j] == self.nodes[q].ch[j]); self.lm_child(g, q, j); }
                }
            }
        }
    }
}
spec fn g_lift(g: G, m: RawArenaIndex, s: int, l: RawArenaIndex, r: RawArenaIndex) -> G {
    let h = g.lv.len() - 1;
    G {
        lv: g.lv.update(h, seq![l, r]).push(seq![m]),
        ht: |y: RawArenaIndex| if y == m { h + 1 } else if y == l || y == r { h } else { (g.ht)(y) },
        pos: |y: RawArenaIndex| if y == l || y == m { 0 } else if y == r { 1 } else { (g.pos)(y) },
        fst: |y: RawArenaIndex| if y == l || y == m { 0 } else if y == r { s } else { (g.fst)(y) },
        lpos: g.lpos,
    }
}
impl<B: BTreeTrait> TS<B> {
    proof fn lm_moved_id(self, g: G, h: int, a: int, np: RawArenaIndex, off: int)
        ensures self.moved(g, h, a, a, np, off) == self
    {
        let t = self.moved(g, h, a, a, np, off);
        assert(t.nodes =~= self.nodes);
        assert(t.leaves =~= self.leaves);
    }
    // one more node goes along
    proof fn lm_moved_step(self, g: G, h: int, a: int, b: int, np: RawArenaIndex, off: int)
        requires 0 <= h < g.lv.len(), 0 <= a <= b < g.lv[h].len(), self.has(aix(g, h, b)), hgt(g, aix(g, h, b)) == h, plc(g, aix(g, h, b)) == b
        ensures ({
            let t = self.moved(g, h, a, b, np, off);
            let u = self.moved(g, h, a, b + 1, np, off);
            let x = aix(g, h, b);
            &&& t.has(x) && t.nodes.dom() == self.nodes.dom() && t.leaves.dom() == self.leaves.dom()
            &&& x is Leaf ==> t.leaves[x.ix()] == self.leaves[x.ix()]
                && u == (TS { leaves: t.leaves.insert(x.ix(), LeafNode { elem: t.leaves[x.ix()].elem, parent: np }), ..t })
            &&& x is Internal ==> t.nodes[x.ix()] == self.nodes[x.ix()]
                && u == (TS { nodes: t.nodes.insert(x.ix(), NodeS { par: Some(ArenaIndex::Internal(np)), slot: (b - off) as u8, ch: t.nodes[x.ix()].ch }), ..t })
        })
    {
        let t = self.moved(g, h, a, b, np, off);
        let u = self.moved(g, h, a, b + 1, np, off);
        let x = aix(g, h, b);
        assert(t.nodes.dom() =~= self.nodes.dom());
        assert(t.leaves.dom() =~= self.leaves.dom());
        match x {
            ArenaIndex::Leaf(l) => {
                assert(u.nodes =~= t.nodes);
                assert(u.leaves =~= t.leaves.insert(l, LeafNode { elem: t.leaves[l].elem, parent: np }));
            }
            ArenaIndex::Internal(y) => {
                assert(u.leaves =~= t.leaves);
                assert(u.nodes =~= t.nodes.insert(y, NodeS { par: Some(ArenaIndex::Internal(np)), slot: (b - off) as u8, ch: t.nodes[y].ch }));
            }
        }
    }
    // the tree after node m of o has been split at s
    spec fn after_split(self, g: G, rc: B::Cache, o: TS<B>, og: G, m: RawArenaIndex, s: int) -> bool {
        &&& self.lnk(g) && (o.sized(og) ==> self.sized(g)) && self.not_full()
        &&& o.fat(og) && 2 <= s <= o.n(m) - 2 ==> self.fat(g)
        &&& self.caches_ok() && self.root_cache_ok(rc)
        &&& self.same_leaves(o) && self.kept(o, m, s) && self.root == o.root
        &&& g.lv[0] == og.lv[0] && g.lpos == og.lpos && og.lv.len() <= g.lv.len() <= og.lv.len() + 1
    }
    // what update_children_parent_slot_from does
    spec fn slotted(self, g: G, p: RawArenaIndex, i: int) -> TS<B> {
        if self.n(p) <= i || self.nodes[p].ch[0].arena is Leaf { self }
        else { self.moved(g, (g.ht)(p) - 1, (g.fst)(p) + i, (g.fst)(p) + self.n(p), p, (g.fst)(p)) }
    }
    spec fn slotting(self, g: G, p: RawArenaIndex, k: int) -> bool {
        let a = self.nodes[p].ch[k].arena;
        &&& a == aix(g, (g.ht)(p) - 1, (g.fst)(p) + k) && a is Internal && self.has(a)
        &&& hgt(g, a) == (g.ht)(p) - 1 && plc(g, a) == (g.fst)(p) + k && self.nodes[a.ix()].par == Some(ArenaIndex::Internal(p))
    }
    spec fn can_slot(self, g: G, p: RawArenaIndex, i: int) -> bool {
        self.nodes.contains_key(p) && (self.n(p) > i && self.nodes[p].ch[0].arena is Internal ==> {
            &&& 2 <= (g.ht)(p) < g.lv.len() && 0 <= (g.fst)(p) && (g.fst)(p) + self.n(p) <= g.lv[(g.ht)(p) - 1].len() && self.n(p) <= MAX_CHILDREN_NUM
            &&& forall|k: int| i <= k < self.n(p) ==> #[trigger] self.slotting(g, p, k)
        })
    }
    // the second split on the way up does not touch the parents of leaves
    proof fn lm_after_trans(self, g: G, rc: B::Cache, t1: TS<B>, g1: G, p: RawArenaIndex, s1: int, t0: TS<B>, g0: G, m: RawArenaIndex, s: int)
        requires self.after_split(g, rc, t1, g1, p, s1), t1.lnk(g1), (g1.ht)(p) >= 2,
            t0.sized(g0) ==> t1.sized(g1), t0.fat(g0) && 2 <= s <= t0.n(m) - 2 ==> t1.fat(g1) && 2 <= s1 <= t1.n(p) - 2, t1.same_leaves(t0), t1.kept(t0, m, s), t1.root == t0.root,
            g1.lv[0] == g0.lv[0], g1.lpos == g0.lpos, g1.lv.len() == g0.lv.len(),
        ensures self.after_split(g, rc, t0, g0, m, s)
    {
        reveal(TS::same_leaves); reveal(TS::kept);
        assert forall|l: RawArenaIndex| #[trigger] self.same_leaf(t0, l) by { assert(self.same_leaf(t1, l)); assert(t1.same_leaf(t0, l)); }
        assert forall|l: RawArenaIndex| #[trigger] self.kept_leaf(t0, m, s, l) by {
            assert(self.kept_leaf(t1, p, s1, l)); assert(t1.kept_leaf(t0, m, s, l));
            assert(t1.same_leaf(t0, l));
            if t1.leaves.contains_key(l) { t1.lm_leaf(g1, l); }
        }
    }
}
impl<B: BTreeTrait> BTree<B> {
    // the arenas never hand out an index again
    spec fn uses(&self, o: &Self) -> bool { o.in_nodes.used().subset_of(self.in_nodes.used()) && o.leaf_nodes.used().subset_of(self.leaf_nodes.used()) }
//@ code src/lib.rs "BTree::split" tags=C04,C05,C16
    fn split(&mut self, node_idx: ArenaIndex)«
        requires old(self).ts().lnk(old(self).g@), node_idx is Internal, old(self).ts().has(node_idx), old(self).ts().n(node_idx.ix()) >= 2,
            old(self).ts().caches_ok(), old(self).ts().root_cache_ok(old(self).root_cache), old(self).ts().roomy_but(node_idx.ix()),
        ensures /*C04 C05*/ final(self).ts().after_split(final(self).g@, final(self).root_cache, old(self).ts(), old(self).g@, node_idx.ix(), old(self).ts().n(node_idx.ix()) / 2),
            final(self).uses(old(self)),
        decreases old(self).g@.lv.len() - (old(self).g@.ht)(node_idx.ix()), 2int»
    {
        self.split_at(node_idx, None)
    }
//@ end
//@ code src/lib.rs "BTree::split_at" tags=C04,C05,C16
    fn split_at(&mut self, node_idx: ArenaIndex, at: Option<usize>)«
        requires old(self).ts().lnk(old(self).g@), node_idx is Internal, old(self).ts().has(node_idx), old(self).ts().n(node_idx.ix()) >= 2,
            at is Some ==> 0 < at->0 < old(self).ts().n(node_idx.ix()),
            old(self).ts().caches_ok(), old(self).ts().root_cache_ok(old(self).root_cache), old(self).ts().roomy_but(node_idx.ix()),
        ensures /*C04 C05*/ final(self).ts().after_split(final(self).g@, final(self).root_cache, old(self).ts(), old(self).g@, node_idx.ix(),
                match at { Some(s) => s as int, None => old(self).ts().n(node_idx.ix()) / 2 }),
            final(self).uses(old(self)),
        decreases old(self).g@.lv.len() - (old(self).g@.ht)(node_idx.ix()), 1int»
    {
        «let ghost t0 = self.ts(); let ghost s = match at { Some(s) => s as int, None => old(self).ts().n(node_idx.ix()) / 2 };
        proof { t0.lm_node(self.g@, node_idx.ix()); reveal(TS::caches_ok); assert(t0.cache_ok(node_idx.ix())); }»
        let (node_parent, node_parent_slot, this_cache, right_child) =
            self.split_node(node_idx, at);
        self.inner_insert_node(
            node_parent,
            node_parent_slot as usize,
            this_cache,
            right_child,
            «Ghost(t0), Ghost(node_idx.ix()), Ghost(s)»
        );
    }
//@ end
//@ code src/lib.rs "BTree::split_node" tags=C04,C05,C16
    fn split_node(
        &mut self,
        node_idx: ArenaIndex,
        at: Option<usize>,
    ) -> «(q:» (Option<ArenaIndex>, u8, <B as BTreeTrait>::Cache, Child<B>)«)
        requires old(self).ts().lnk(old(self).g@), node_idx is Internal, old(self).ts().has(node_idx), old(self).ts().n(node_idx.ix()) >= 2,
            at is Some ==> 0 < at->0 < old(self).ts().n(node_idx.ix()), forall|k: int| 0 <= k < old(self).ts().n(node_idx.ix()) ==> B::cok((#[trigger] old(self).ts().nodes[node_idx.ix()].ch[k]).cache),
        ensures final(self).g == old(self).g, final(self).root == old(self).root, final(self).root_cache == old(self).root_cache,
            final(self).leaf_nodes.used() == old(self).leaf_nodes.used(), final(self).uses(old(self)), ({
            let t0 = old(self).ts();
            let m = node_idx.ix();
            let n = t0.n(m);
            let s = match at { Some(s) => s as int, None => n / 2 };
            &&& q.0 == t0.nodes[m].par && q.1 == t0.nodes[m].slot
            &&& q.3.arena is Internal && !t0.has(q.3.arena)
            &&& /*C05*/ q.2 == B::sum(t0.kids(m).subrange(0, s)) && q.3.cache == B::sum(t0.kids(m).subrange(s, n))
            &&& /*C04*/ final(self).ts() == t0.cut(old(self).g@, m, s, q.3.arena.ix())
        })»
    {
        «let ghost t0 = self.ts(); let ghost g = self.g@; let ghost m = node_idx.ix(); let ghost n = t0.n(m);
        let ghost s = match at { Some(s) => s as int, None => n / 2 }; let ghost h = (g.ht)(m) - 1; let ghost a = (g.fst)(m) + s;
        proof { t0.lm_node(g, m); assert(t0.nodes[m] == ns(self.in_nodes@[m])); }»
        let node = self.in_nodes.get_mut(node_idx.unwrap_internal()).unwrap();
        let node_parent = node.parent;
        let node_parent_slot = node.parent_slot;
        let right: Node<B> = Node {
            parent: node.parent,
            parent_slot: u8::MAX,
            children: HeaplessVec::new(),
        };
        let split = at.unwrap_or(node.children.len() / 2);
        «let ghost ch0 = node.children@;»
        let right_children = vx_from_slice(&node.children[split..]);
        delete_range(&mut node.children, split..);
        «proof { assert(node.children@ =~= ch0.subrange(0, s)); }»
        let mut right_cache = vx_cache0::<B>();
        let right_arena_idx = self.in_nodes.insert(right);
        let this_cache = {
            let node = self.get_internal_mut(node_idx);
            let mut cache = vx_cache0::<B>();
            node.calc_cache(&mut cache, None);
            «proof { assert(cch(node.children@) =~= t0.kids(m).subrange(0, s)); }»
            cache
        };
        «let ghost r = right_arena_idx; let ghost t1 = self.ts();
        proof {
            let t = t0.setch(m, ch0.subrange(0, s));
            assert(t1.nodes =~= t.nodes.insert(r, NodeS { par: t0.nodes[m].par, slot: 255, ch: Seq::<Child<B>>::empty() }));
            t1.lm_moved_id(g, h, a, r, a);
            right_children.axiom_cap();
        }»
        for i in 0..right_children.len()
            «invariant
                h == (g.ht)(m) - 1, a == (g.fst)(m) + s, 0 < s < n, t0.lnk(g), t0.nodes.contains_key(m), n == t0.n(m), n <= MAX_CHILDREN_NUM,
                right_children@ == t0.nodes[m].ch.subrange(s, n), t1.nodes.dom() == t0.nodes.dom().insert(r), t1.leaves.dom() == t0.leaves.dom(),
                right_arena_idx == r, !t0.nodes.contains_key(r),
                self.ts() == t1.moved(g, h, a, a + i, r, a), self.g@ == g, self.root_cache == old(self).root_cache,
                self.leaf_nodes.used() == old(self).leaf_nodes.used(), old(self).in_nodes.used().subset_of(self.in_nodes.used()),»
        {
            let child = &right_children[i];
            «let ghost x = child.arena; let ghost t2 = self.ts();
            proof {
                t0.lm_node(g, m); t0.lm_child(g, m, s + i);
                t1.lm_moved_step(g, h, a, a + i, r, a);
                assert(x == aix(g, h, a + i));
            }»
            if matches!(child.arena, ArenaIndex::Internal(_)) {
                let child = self.get_internal_mut(child.arena);
                child.parent = Some(ArenaIndex::Internal(right_arena_idx));
                child.parent_slot = i as u8;
                «proof { assert(after_borrow(self).ts().nodes =~= t1.moved(g, h, a, a + i + 1, r, a).nodes); }»
            } else {
                self.get_leaf_mut(child.arena).parent = right_arena_idx;
            }
            «proof { assert(self.ts().nodes =~= t1.moved(g, h, a, a + i + 1, r, a).nodes); assert(self.ts().leaves =~= t1.moved(g, h, a, a + i + 1, r, a).leaves); }»
        }
        «let ghost t3 = self.ts();»
        let right = self.in_nodes.get_mut(right_arena_idx).unwrap();
        right.children = right_children;
        right.calc_cache(&mut right_cache, None);
        «proof {
            assert(cch(right.children@) =~= t0.kids(m).subrange(s, n));
        }»
        let right_child = Child {
            arena: ArenaIndex::Internal(right_arena_idx),
            cache: right_cache,
        };
        «proof {
            assert(t0.lvl_ok(g, h, (g.pos)(r))) by { reveal(TS::lnk); }
            let tc = t0.cut(g, m, s, r);
            assert(!hit(g, h, a, a + (n - s), ArenaIndex::Internal(r)));
            assert(t3.nodes[r] == t1.nodes[r]);
            assert(self.in_nodes@[r].children@ == t0.nodes[m].ch.subrange(s, n));
            assert(ns(self.in_nodes@[r]) == tc.nodes[r]);
            assert forall|y: RawArenaIndex| self.ts().nodes.contains_key(y) && y != r implies #[trigger] self.ts().nodes[y] == tc.nodes[y] by {
                assert(self.ts().nodes[y] == t3.nodes[y]);
            }
            assert(self.ts().nodes.dom() =~= tc.nodes.dom());
            assert(self.ts().nodes =~= tc.nodes);
            assert(self.ts().leaves =~= tc.leaves);
        }»
        (node_parent, node_parent_slot, this_cache, right_child)
    }
//@ end
//@ code src/lib.rs "BTree::inner_insert_node" tags=C04,C05,C16
    fn inner_insert_node(
        &mut self,
        parent_idx: Option<ArenaIndex>,
        index: usize,
        new_cache: B::Cache,
        node: Child<B>,
        «Ghost(t0): Ghost<TS<B>>, Ghost(m): Ghost<RawArenaIndex>, Ghost(s): Ghost<int>»
    )«
        requires t0.lnk(old(self).g@), t0.nodes.contains_key(m), 0 < s < t0.n(m), t0.roomy_but(m), t0.caches_ok(), t0.root_cache_ok(old(self).root_cache),
            node.arena is Internal, !t0.has(node.arena), old(self).ts() == t0.cut(old(self).g@, m, s, node.arena.ix()),
            parent_idx == t0.nodes[m].par, index == t0.nodes[m].slot,
            new_cache == B::sum(t0.kids(m).subrange(0, s)), node.cache == B::sum(t0.kids(m).subrange(s, t0.n(m))),
        ensures /*C04 C05*/ final(self).ts().after_split(final(self).g@, final(self).root_cache, t0, old(self).g@, m, s), final(self).uses(old(self)),
        decreases old(self).g@.lv.len() - (old(self).g@.ht)(m), 0int»
    {
        «let ghost g = self.g@; let ghost r = node.arena.ix(); let ghost tc = self.ts(); let ghost rc = self.root_cache;
        proof { t0.lm_root(g); t0.lm_node(g, m); }»
        if let Some(parent_idx) = parent_idx {
            «let ghost p = parent_idx.ix(); let ghost k = index as int; let ghost f = (g.fst)(m) + s;
            let ghost g1 = g_ins(g, (g.ht)(m), (g.pos)(m) + 1, p, r, f);
            let ghost t1 = tc.paste(g1, p, k, new_cache, node);
            proof {
                t0.lm_par(g, ArenaIndex::Internal(m));
                t0.lm_node(g, p);
                reveal(TS::roomy_but); assert(t0.roomy(p));
                t0.lm_split(g, m, s, r, new_cache, node.cache);
                t0.lm_split_rest(g, m, s, r, new_cache, node.cache);
                t0.lm_split_caches(g, m, s, r, new_cache, node.cache);
                assert(tc.nodes[p] == ns(self.in_nodes@[p]));
                assert(tc.nodes[p] == t0.nodes[p]);
            }»
            let parent = self.get_internal_mut(parent_idx);
            parent.children[index].cache = new_cache;
            parent.children.insert(index + 1, node).unwrap();
            let is_full = parent.is_full();
            «proof { self.g = Ghost(g1); }
            let ghost ch1 = t0.nodes[p].ch.update(k, Child { arena: t0.nodes[p].ch[k].arena, cache: new_cache }).insert(k + 1, node);
            let ghost t2 = tc.setch(p, ch1);
            proof {
                assert(self.in_nodes@[p].children@ =~= ch1);
                assert(self.ts().nodes =~= t2.nodes);
                assert(self.ts() == t2);
                t1.lm_node(g1, p);
                assert forall|j: int| k + 1 <= j < t2.n(p) implies #[trigger] t2.slotting(g1, p, j) by {
                    t1.lm_child(g1, p, j);
                    let a = t2.nodes[p].ch[j].arena;
                    assert(t1.nodes[p].ch[j].arena == a);
                    assert(t1.nodes.dom() =~= t2.nodes.dom());
                    if j > k + 1 {
                        t0.lm_child(g, p, j - 1);
                        assert(a == t0.nodes[p].ch[j - 1].arena);
                        t0.lm_par(g, a);
                        assert(t2.nodes[a.ix()].par == tc.nodes[a.ix()].par);
                        assert(tc.nodes[a.ix()].par == t0.nodes[a.ix()].par);
                    } else {
                        assert(!hit(g, (g.ht)(m) - 1, f, (g.fst)(m) + t0.n(m), ArenaIndex::Internal(r))) by {
                            reveal(TS::lnk); assert(t0.lvl_ok(g, (g.ht)(m) - 1, (g.pos)(r)));
                        }
                        assert(tc.nodes[r].par == t0.nodes[m].par);
                        assert(t2.nodes[r].par == tc.nodes[r].par);
                    }
                    assert(t2.nodes[p].ch.len() == t1.nodes[p].ch.len());
                    assert((g1.ht)(p) == (g.ht)(p));
                    assert(a == aix(g1, (g1.ht)(p) - 1, (g1.fst)(p) + j));
                    assert(a is Internal);
                    assert(t2.has(a));
                    assert(hgt(g1, a) == (g1.ht)(p) - 1);
                    assert(plc(g1, a) == (g1.fst)(p) + j);
                    assert(t2.nodes[a.ix()].par == Some(ArenaIndex::Internal(p)));
                }
                t0.lm_child(g, p, 0);
                assert(t2.nodes[p].ch[0].arena == t0.nodes[p].ch[0].arena);
                assert(t1 == t2.slotted(g1, p, k + 1));
            }»
            self.update_children_parent_slot_from(parent_idx, index + 1);
            «let ghost u = self;
            proof { assert(self.ts() == t1); t1.lm_root(g1); }»
            if is_full {
                self.split(parent_idx);
                «proof { self.ts().lm_after_trans(self.g@, self.root_cache, t1, g1, p, t1.n(p) / 2, t0, g, m, s); }»
            }«
            else {
                proof { reveal(TS::roomy_but); reveal(TS::not_full);
                    assert forall|y: RawArenaIndex| #[trigger] t1.roomy(y) by { if y != p { assert(t1.roomy(y)); } } }
            }»
        } else {
            self.split_root(new_cache, node«, Ghost(t0), Ghost(s)»);
        }
    }
//@ end
//@ code src/lib.rs "BTree::update_children_parent_slot_from" tags=C04,C16
    fn update_children_parent_slot_from(&mut self, parent_idx: ArenaIndex, index: usize)«
        requires parent_idx is Internal, old(self).ts().can_slot(old(self).g@, parent_idx.ix(), index as int)
        ensures final(self).g == old(self).g, final(self).root_cache == old(self).root_cache, final(self).in_nodes.used() == old(self).in_nodes.used(),
            final(self).leaf_nodes == old(self).leaf_nodes,
            /*C04*/ final(self).ts() == old(self).ts().slotted(old(self).g@, parent_idx.ix(), index as int)»
    {
        «let ghost t0 = self.ts(); let ghost p = parent_idx.ix(); let ghost g = self.g@; let ghost n = t0.n(p);
        let ghost h = (g.ht)(p) - 1; let ghost f = (g.fst)(p);
        proof { assert(t0.nodes[p] == ns(self.in_nodes@[p])); assert(t0.leaves == self.leaf_nodes@); }»
        let parent = self.get_internal_mut(parent_idx);
        if parent.children.len() <= index || parent.is_child_leaf() {
            «proof { assert(after_borrow(self).ts().nodes =~= t0.nodes); }»
            return;
        }
        let children = vx_take_vec(&mut parent.children);
        «let ghost t1 = self.ts();
        proof {
            assert(t1.nodes =~= t0.setch(p, Seq::empty()).nodes);
            t1.lm_moved_id(g, h, f + index, p, f);
        }»
        for i in 0..children.len() - index
            «invariant
                parent_idx == ArenaIndex::Internal(p), t0.can_slot(g, p, index as int), t0.nodes[p].ch[0].arena is Internal, index < n, n == t0.n(p), n == children@.len(),
                children@ == t0.nodes[p].ch, t1 == t0.setch(p, Seq::empty()), h == (g.ht)(p) - 1, f == (g.fst)(p), t1.leaves == self.leaf_nodes@,
                self.ts() == t1.moved(g, h, f + index, f + index + i, p, f), self.g@ == g, self.root_cache == old(self).root_cache,
                self.leaf_nodes == old(self).leaf_nodes, old(self).in_nodes.used() == self.in_nodes.used(),»
        {
            let child = &children[index + i];
            «let ghost x = child.arena; let ghost t2 = self.ts();
            proof {
                assert(t0.slotting(g, p, index + i));
                t1.lm_moved_step(g, h, f + index, f + index + i, p, f);
                assert(x.ix() != p);
                assert(t1.nodes[x.ix()] == t0.nodes[x.ix()]);
                assert(t2.nodes[x.ix()] == ns(self.in_nodes@[x.ix()]));
            }»
            let idx = index + i;
            let child = self.get_internal_mut(child.arena);
            child.parent_slot = idx as u8;
            «proof { assert(self.ts().nodes =~= t1.moved(g, h, f + index, f + index + i + 1, p, f).nodes); }»
        }
        «let ghost t3 = self.ts(); proof { assert(t3.nodes.contains_key(p)); assert(t3.nodes[p] == ns(self.in_nodes@[p])); assert(!hit(g, h, f + index, f + n, ArenaIndex::Internal(p))); }»
        let parent = self.get_internal_mut(parent_idx);
        parent.children = children;
        «proof {
            let tz = t0.slotted(g, p, index as int);
            assert(ns(self.in_nodes@[p]) == tz.nodes[p]);
            assert forall|y: RawArenaIndex| self.ts().nodes.contains_key(y) && y != p implies #[trigger] self.ts().nodes[y] == tz.nodes[y] by {
                assert(self.ts().nodes[y] == t3.nodes[y]);
            }
            assert(self.ts().nodes =~= tz.nodes);
        }»
    }
//@ end
//@ code src/lib.rs "BTree::split_root" tags=C04,C05,C16
    fn split_root(&mut self, new_cache: B::Cache, right: Child<B>«, Ghost(t0): Ghost<TS<B>>, Ghost(s): Ghost<int>»)«
        requires t0.lnk(old(self).g@), 0 < s < t0.n(t0.rt()), t0.roomy_but(t0.rt()), t0.caches_ok(),
            right.arena is Internal, !t0.has(right.arena), old(self).ts() == t0.cut(old(self).g@, t0.rt(), s, right.arena.ix()),
            new_cache == B::sum(t0.kids(t0.rt()).subrange(0, s)), right.cache == B::sum(t0.kids(t0.rt()).subrange(s, t0.n(t0.rt()))),
        ensures /*C04 C05*/ final(self).ts().after_split(final(self).g@, final(self).root_cache, t0, old(self).g@, t0.rt(), s), final(self).uses(old(self))»
    {
        «let ghost m = t0.rt(); let ghost g = self.g@; let ghost r = right.arena.ix(); let ghost n = t0.n(m); let ghost h = (g.ht)(m) - 1;
        let ghost tc = self.ts(); let ghost c2 = right.cache; let ghost top = Some(ArenaIndex::Internal(m));
        proof {
            t0.lm_root(g); t0.lm_node(g, m);
            assert(tc.nodes.contains_key(r) && tc.nodes.contains_key(m));
            assert(tc.nodes[r] == ns(self.in_nodes@[r]));
            assert(tc.nodes[m] == ns(self.in_nodes@[m]));
            assert(!hit(g, h, s, n, ArenaIndex::Internal(r))) by { reveal(TS::lnk); assert(t0.lvl_ok(g, h, (g.pos)(r))); }
            assert(tc.nodes[m] == (NodeS { par: t0.nodes[m].par, slot: t0.nodes[m].slot, ch: t0.nodes[m].ch.subrange(0, s) }));
        }»
        let root_idx = self.root;
        let right_node = self.get_internal_mut(right.arena);
        right_node.parent_slot = 1;
        right_node.parent = Some(root_idx);
        let root = self.get_internal_mut(self.root);
        let mut left_node: Node<B> = vx_replace(
            root,
            Node {
                parent: None,
                parent_slot: 0,
                children: HeaplessVec::new(),
            },
        );
        left_node.parent_slot = 0;
        left_node.parent = Some(root_idx);
        root.children = HeaplessVec::new();
        let left_children = vx_clone(&left_node.children);
        let left_arena = self.in_nodes.insert(left_node);
        «let ghost l = left_arena;»
        let left = Child::new(ArenaIndex::Internal(left_arena), new_cache);
        let mut cache = vx_take(&mut self.root_cache);
        let root = self.get_internal_mut(self.root);
        root.children.push(left).unwrap();
        root.children.push(right).unwrap();
        «proof {
            assert(root.children@ =~= seq![left, right]);
            reveal(TS::caches_ok); assert(t0.cache_ok(m));
            let a = t0.kids(m).subrange(0, s);
            let b = t0.kids(m).subrange(s, n);
            assert forall|i: int| 0 <= i < a.len() implies B::cok(#[trigger] a[i]) by { assert(a[i] == t0.nodes[m].ch[i].cache); }
            assert forall|i: int| 0 <= i < b.len() implies B::cok(#[trigger] b[i]) by { assert(b[i] == t0.nodes[m].ch[s + i].cache); }
            B::law_cok_sum(a);
            B::law_cok_sum(b);
        }»
        root.calc_cache(&mut cache, None);
        «let ghost t1 = self.ts(); let ghost tz = t0.lift(g, s, l, r, new_cache, c2);
        proof {
            t1.lm_moved_id(g, h, 0, l, 0);
            assert(t1.nodes.dom() =~= t0.nodes.dom().insert(r).insert(l));
            assert(!hit(g, h, 0, s, ArenaIndex::Internal(r)) && !hit(g, h, 0, s, ArenaIndex::Internal(l)) && !hit(g, h, s, n, ArenaIndex::Internal(l)))
                by { reveal(TS::lnk); assert(t0.lvl_ok(g, h, (g.pos)(r))); assert(t0.lvl_ok(g, h, (g.pos)(l))); }
            assert(t1.nodes[m].ch == seq![left, right]);
            left_children.axiom_cap();
        }»
        for i in 0..left_children.len()
            «invariant
                h == (g.ht)(m) - 1, m == t0.rt(), 0 < s < n, t0.lnk(g), n == t0.n(m), n <= MAX_CHILDREN_NUM,
                left_children@ == t0.nodes[m].ch.subrange(0, s), t1.nodes.dom() == t0.nodes.dom().insert(r).insert(l), t1.leaves.dom() == t0.leaves.dom(),
                left_arena == l,
                self.ts() == t1.moved(g, h, 0, i as int, l, 0), self.g@ == g, self.uses(old(self)),»
        {
            let child = &left_children[i];
            «let ghost x = child.arena; let ghost t2 = self.ts();
            proof {
                t0.lm_root(g); t0.lm_node(g, m); t0.lm_child(g, m, i as int);
                t1.lm_moved_step(g, h, 0, i as int, l, 0);
            }»
            if child.is_internal() {
                let node = self.get_internal_mut(child.arena);
                node.parent = Some(ArenaIndex::Internal(left_arena));
                node.parent_slot = i as u8;
                «proof { assert(after_borrow(self).ts().nodes =~= t1.moved(g, h, 0, i + 1, l, 0).nodes); }»
            } else {
                self.get_leaf_mut(child.arena).parent = left_arena;
            }
            «proof { assert(self.ts().nodes =~= t1.moved(g, h, 0, i + 1, l, 0).nodes); assert(self.ts().leaves =~= t1.moved(g, h, 0, i + 1, l, 0).leaves); }»
        }
        «let ghost t3 = self.ts();»
        self.root_cache = cache;
        «proof {
            assert(self.ts() == t3);
            assert forall|y: RawArenaIndex| t3.nodes.contains_key(y) implies #[trigger] t3.nodes[y] == tz.nodes[y] by {
                assert(t3.nodes[y].ch == t1.nodes[y].ch);
                if y == m { assert(t3.nodes[y] == t1.nodes[y]); assert(t1.nodes[m].par is None); assert(t1.nodes[m].slot == 0); assert(tz.nodes[m].ch == t1.nodes[m].ch); assert(t3.nodes[y] == tz.nodes[y]); }
                else if y == l { assert(t3.nodes[y] == t1.nodes[y]); assert(t1.nodes[y] == tz.nodes[y]); }
                else if y == r { assert(t3.nodes[y] == t1.nodes[y]); assert(t1.nodes[y] == tz.nodes[y]); }
                else {
                    assert(t1.nodes[y] == tc.nodes[y]);
                    assert(t3.nodes[y] == tz.nodes[y]);
                }
            }
            assert(self.ts().nodes =~= tz.nodes);
            assert(self.ts().leaves =~= tz.leaves);
            t0.lm_lift(g, s, l, r, new_cache, c2);
            t0.lm_lift_caches(g, s, l, r, new_cache, c2);
            self.g = Ghost(g_lift(g, m, s, l, r));
            assert(tz.kids(m) =~= seq![new_cache, c2]);
        }»
    }
//@ end
}
