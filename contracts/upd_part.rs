// update_leaf. (C12, C04, C05, C07, C16)
//@ rw SplittedLeaves::default() ==> SplittedLeaves::vx_default()
//@ rw std::mem::swap ==> vx_swap
//@ rw let new: HeaplessVec<_, 2> = new_insert_1.into_iter().chain(new_insert_2).map(|elem| { $$body }).collect(); ==> let mut new: HeaplessVec<Child<B>, 2> = HeaplessVec::new(); if let Some(elem) = new_insert_1 { new.push({ $$body }).unwrap(); } if let Some(elem) = new_insert_2 { new.push({ $$body }).unwrap(); }
//@ rw for (i, v) in new.into_iter().enumerate() { ==> for i in 0..new.len() { let v = vx_clone(&new[i]);
#[verifier::external_body]
fn vx_swap<T>(x: &mut T, y: &mut T)
    ensures *final(x) == *old(y), *final(y) == *old(x)
{ unimplemented!() }
// children between the slots s - 1 and s
spec fn wedge<T>(c: Seq<T>, s: int, n: Seq<T>) -> Seq<T> { c.subrange(0, s) + n + c.subrange(s, c.len() as int) }
proof fn lm_wedge<T>(c: Seq<T>, s: int, n: Seq<T>, i: int)
    requires 0 <= s <= c.len(), 0 <= i < n.len()
    ensures wedge(c, s, n.take(i)).insert(s + i, n[i]) == wedge(c, s, n.take(i + 1)), wedge(c, s, n.take(i)).len() == c.len() + i
{ reveal(wedge); assert(wedge(c, s, n.take(i)).insert(s + i, n[i]) =~= wedge(c, s, n.take(i + 1))); }
proof fn lm_wedge0<T>(c: Seq<T>, s: int, n: Seq<T>)
    requires 0 <= s <= c.len()
    ensures wedge(c, s, n.take(0)) == c, n.take(n.len() as int) == n, wedge(c, s, n).len() == c.len() + n.len()
{ reveal(wedge); assert(wedge(c, s, n.take(0)) =~= c); assert(n.take(n.len() as int) =~= n); }
spec fn names<B: BTreeTrait>(s: Seq<Child<B>>) -> Seq<LeafIndex> { s.map_values(|c: Child<B>| LeafIndex(c.arena.ix())) }
proof fn lm_names<B: BTreeTrait>(n: Seq<Child<B>>, i: int)
    requires 0 <= i < n.len()
    ensures names(n.take(i)).push(LeafIndex(n[i].arena.ix())) == names(n.take(i + 1)), names(n.take(i)).len() == i
{ reveal(names); assert(names(n.take(i)).push(LeafIndex(n[i].arena.ix())) =~= names(n.take(i + 1))); }
proof fn lm_names2<B: BTreeTrait>(n: Seq<Child<B>>)
    ensures n.len() == 0 ==> names(n) == Seq::<LeafIndex>::empty(), n.len() == 1 ==> names(n) == seq![LeafIndex(n[0].arena.ix())],
        n.len() == 2 ==> names(n) == seq![LeafIndex(n[0].arena.ix()), LeafIndex(n[1].arena.ix())]
{
    reveal(names);
    if n.len() == 0 { assert(names(n) =~= Seq::<LeafIndex>::empty()); }
    if n.len() == 1 { assert(names(n) =~= seq![LeafIndex(n[0].arena.ix())]); }
    if n.len() == 2 { assert(names(n) =~= seq![LeafIndex(n[0].arena.ix()), LeafIndex(n[1].arena.ix())]); }
}
proof fn lm_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, d: Seq<T>, e: Seq<T>)
    ensures a + (b + (c + d)) + e == a + (b + c) + (d + e)
{ assert(a + (b + (c + d)) + e =~= a + (b + c) + (d + e)); }
// the parts that stay
spec fn part<E: CanRemove>(x: Option<E>) -> Seq<E> { match x { Some(e) => if e.removable() { Seq::empty() } else { seq![e] }, None => Seq::empty() } }
spec fn pieces<E: CanRemove>(y: E, a: Option<E>, b: Option<E>) -> Seq<E> { part(Some(y)) + part(a) + part(b) }
spec fn texts<E: HasLength>(s: Seq<E>) -> Seq<Seq<E::Unit>> { s.map_values(|e: E| e.content()) }
// what the function given to update_leaf may do with the element e
spec fn lawful<B: BTreeTrait>(e: B::Elem, y: B::Elem, r: (bool, Option<B::Elem>, Option<B::Elem>)) -> bool {
    let ps = pieces(y, r.1, r.2);
    &&& y.ok() && (r.1 is Some ==> (r.1->0).ok()) && (r.2 is Some ==> (r.2->0).ok())
    &&& ps.len() == 0 ==> B::exact0()
    // it may say that the summary stays the same only when it does
    &&& !r.0 ==> B::ec(if ps.len() > 0 { ps[0] } else { y }) == B::ec(e)
}
impl<B: BTreeTrait> TS<B> {
    proof fn lm_sim_same(self, t: TS<B>)
        requires self.sim(t)
        ensures t.same_leaves(self), t.leaves == self.leaves, t.root == self.root
    { reveal(TS::sim); reveal(TS::same_leaves); assert forall|l: RawArenaIndex| #[trigger] t.same_leaf(self, l) by {} }
    proof fn lm_but_trans(self, t: TS<B>, o: TS<B>, a: RawArenaIndex, b: RawArenaIndex, c: RawArenaIndex, x: RawArenaIndex, y: RawArenaIndex, z: RawArenaIndex)
        requires self.same_but(t, a, a, a), t.same_but(o, b, b, c), x == b, y == c && z == a || y == a && z == a && b == c
        ensures self.same_but(o, x, y, z)
    {
        reveal(TS::same_but);
        assert forall|l: RawArenaIndex| l != x && l != y && l != z implies #[trigger] self.same_leaf(o, l) by { assert(self.same_leaf(t, l)); assert(t.same_leaf(o, l)); }
    }
    proof fn lm_but_leaf(self, t: TS<B>, l: RawArenaIndex, b: RawArenaIndex, c: RawArenaIndex)
        requires self.same_but(t, b, b, c), l != b && l != c
        ensures self.same_leaf(t, l)
    { reveal(TS::same_but); assert(self.same_leaf(t, l)); }
    proof fn lm_but4(self, t: TS<B>, o: TS<B>, a: RawArenaIndex, b: RawArenaIndex, c: RawArenaIndex)
        requires self.same_but(t, b, b, c), t.same_but(o, a, a, a)
        ensures self.same_but(o, a, b, c)
    {
        reveal(TS::same_but);
        assert forall|l: RawArenaIndex| l != a && l != b && l != c implies #[trigger] self.same_leaf(o, l) by { assert(self.same_leaf(t, l)); assert(t.same_leaf(o, l)); }
    }
    proof fn lm_same3(self, t: TS<B>, u: TS<B>, o: TS<B>, b: RawArenaIndex, c: RawArenaIndex)
        requires self.same_leaves(t), t.same_but(u, b, b, c), u.same_leaves(o)
        ensures self.same_but(o, b, b, c)
    {
        reveal(TS::same_but); reveal(TS::same_leaves);
        assert forall|l: RawArenaIndex| l != b && l != c implies #[trigger] self.same_leaf(o, l) by { assert(self.same_leaf(t, l)); assert(t.same_leaf(u, l)); assert(u.same_leaf(o, l)); }
    }
    proof fn lm_but3(self, t: TS<B>, o: TS<B>, a: RawArenaIndex, b: RawArenaIndex, c: RawArenaIndex)
        requires self.same_but(t, a, a, a), t.same_but(o, b, c, c)
        ensures self.same_but(o, b, c, a)
    {
        reveal(TS::same_but);
        assert forall|l: RawArenaIndex| l != a && l != b && l != c implies #[trigger] self.same_leaf(o, l) by { assert(self.same_leaf(t, l)); assert(t.same_leaf(o, l)); }
    }
    proof fn lm_kept(self, o: TS<B>, m: RawArenaIndex, s: int, l: RawArenaIndex)
        requires self.kept(o, m, s)
        ensures self.kept_leaf(o, m, s, l)
    { reveal(TS::kept); assert(self.kept_leaf(o, m, s, l)); }
    proof fn lm_roomy_but(self, p: RawArenaIndex)
        requires self.not_full()
        ensures self.roomy_but(p)
    { reveal(TS::roomy_but); reveal(TS::not_full); assert forall|y: RawArenaIndex| y != p implies #[trigger] self.roomy(y) by { assert(self.roomy(y)); } }
    // the children of a node above the leaves
    proof fn lm_slots(self, g: G, l: RawArenaIndex)
        requires self.lnk(g), self.leaves.contains_key(l)
        ensures ({
            let p = self.leaves[l].parent;
            let k = (g.lpos)(l) - (g.fst)(p);
            &&& self.nodes.contains_key(p) && 0 <= k < self.n(p) && self.nodes[p].ch[k].arena == ArenaIndex::Leaf(l) && (g.ht)(p) == 1
            &&& forall|j: int| 0 <= j < self.n(p) ==> (#[trigger] self.nodes[p].ch[j]).arena is Leaf && (self.nodes[p].ch[j].arena.ix() == l ==> j == k)
            &&& 0 <= (g.fst)(p) && (g.fst)(p) + self.n(p) <= g.lv[0].len() && 0 <= (g.lpos)(l) < g.lv[0].len() && g.lv[0][(g.lpos)(l)] == l
        })
    {
        self.lm_root(g);
        let p = self.leaves[l].parent;
        self.lm_par(g, ArenaIndex::Leaf(l)); self.lm_node(g, p); self.lm_leaf(g, l);
        assert forall|j: int| 0 <= j < self.n(p) implies (#[trigger] self.nodes[p].ch[j]).arena is Leaf && (self.nodes[p].ch[j].arena.ix() == l ==> j == (g.lpos)(l) - (g.fst)(p)) by { self.lm_child(g, p, j); }
    }
    // one or two new leaves behind the leaf at the slot k of q
    spec fn sprout(self, q: RawArenaIndex, k: int, x1: RawArenaIndex, f1: B::Elem, two: bool, x2: RawArenaIndex, f2: B::Elem) -> TS<B> {
        let ta = self.put(q, k + 1, x1, f1, B::ec(f1));
        if two { ta.put(q, k + 2, x2, f2, B::ec(f2)) } else { ta }
    }
    spec fn g_sprout(self, g: G, q: RawArenaIndex, k: int, x1: RawArenaIndex, two: bool, x2: RawArenaIndex) -> G {
        let ga = g_ins(g, 0, (g.fst)(q) + k + 1, q, x1, 0);
        if two { g_ins(ga, 0, (ga.fst)(q) + k + 2, q, x2, 0) } else { ga }
    }
    proof fn lm_sprout(self, g: G, l: RawArenaIndex, q: RawArenaIndex, k: int, x1: RawArenaIndex, f1: B::Elem, two: bool, x2: RawArenaIndex, f2: B::Elem, rc: B::Cache)
        requires self.lnk(g), self.sized(g), self.not_full(), self.elems_ok(), self.caches_ok(), self.root_cache_ok(rc), self.leaves.contains_key(l), q == self.leaves[l].parent, k == (g.lpos)(l) - (g.fst)(q),
            self.n(q) + (if two { 2int } else { 1 }) < MAX_CHILDREN_NUM, f1.ok(), two ==> f2.ok(), !self.leaves.contains_key(x1), two ==> !self.leaves.contains_key(x2) && x1 != x2
        ensures ({
            let t = self.sprout(q, k, x1, f1, two, x2, f2);
            let h = self.g_sprout(g, q, k, x1, two, x2);
            let b = ArenaIndex::Internal(q);
            let i = (g.lpos)(l);
            &&& t.lnk(h) && t.sized(h) && t.not_full() && t.elems_ok() && t.fix(h, b).cx(t.up(b)) && t.n(t.up(b).ix()) > 0 && t.has(b) && t.root == self.root && (B::USE_DIFF && t.up(b) != self.root ==> rc == t.kc(self.root))
            &&& t.same_but(self, x1, x1, if two { x2 } else { x1 })
            &&& h.lv[0] == (if two { g.lv[0].insert(i + 1, x1).insert(i + 2, x2) } else { g.lv[0].insert(i + 1, x1) })
            &&& t.nodes[q].ch == wedge(self.nodes[q].ch, k + 1, (if two { seq![Child { arena: ArenaIndex::Leaf(x1), cache: B::ec(f1) }, Child { arena: ArenaIndex::Leaf(x2), cache: B::ec(f2) }] }
                else { seq![Child { arena: ArenaIndex::Leaf(x1), cache: B::ec(f1) }] }))
            &&& t.nodes == self.nodes.insert(q, NodeS { ch: t.nodes[q].ch, ..self.nodes[q] })
            &&& t.leaves == (if two { self.leaves.insert(x1, LeafNode { elem: f1, parent: q }).insert(x2, LeafNode { elem: f2, parent: q }) } else { self.leaves.insert(x1, LeafNode { elem: f1, parent: q }) })
            &&& t.leaves[l] == self.leaves[l]
        })
    {
        reveal(TS::sprout); reveal(TS::g_sprout); reveal(wedge);
        let b = ArenaIndex::Internal(q);
        let ta = self.put(q, k + 1, x1, f1, B::ec(f1));
        let ga = g_ins(g, 0, (g.fst)(q) + k + 1, q, x1, 0);
        let t = self.sprout(q, k, x1, f1, two, x2, f2);
        B::law_c0();
        self.lm_root(g);
        self.lm_slots(g, l);
        self.lm_cx_of(b);
        self.lm_roomy_but(q);
        self.lm_put(g, q, k + 1, x1, f1, B::ec(f1)); self.lm_put_cx(g, q, k + 1, x1, f1); self.lm_but_all(ta, q);
        assert(self.n(self.rt()) > 0) by { if q != self.rt() { self.lm_size(g, self.rt()); self.lm_node(g, q); } }
        assert(ta.has(self.root) && self.has(self.root));
        if two {
            ta.lm_put(ga, q, k + 2, x2, f2, B::ec(f2)); ta.lm_put_cx(ga, q, k + 2, x2, f2); ta.lm_but_all(t, q);
            ta.lm_root(ga);
            t.lm_but3(ta, self, x2, x1, x1);
        }
        t.lm_roomy_all(q);
        assert(t.nodes[q].ch =~= wedge(self.nodes[q].ch, k + 1, (if two { seq![Child { arena: ArenaIndex::Leaf(x1), cache: B::ec(f1) }, Child { arena: ArenaIndex::Leaf(x2), cache: B::ec(f2) }] }
                else { seq![Child { arena: ArenaIndex::Leaf(x1), cache: B::ec(f1) }] })));
        assert(t.nodes =~= self.nodes.insert(q, NodeS { ch: t.nodes[q].ch, ..self.nodes[q] }));
    }
    proof fn lm_but_all(self, t: TS<B>, q: RawArenaIndex)
        requires self.roomy_but(q), t.nodes == self.nodes.insert(q, t.nodes[q])
        ensures t.roomy_but(q)
    { reveal(TS::roomy_but); assert forall|y: RawArenaIndex| y != q implies #[trigger] t.roomy(y) by { assert(self.roomy(y)); if t.nodes.contains_key(y) { assert(t.nodes[y] == self.nodes[y]); } } }
    // a leaf without a summary is taken out: all the other summaries stay right
    proof fn lm_drop_neutral(self, g: G, rc: B::Cache, l: RawArenaIndex)
        requires self.lnk(g), self.leaves.contains_key(l), self.caches_ok(), self.root_cache_ok(rc), B::exact0(), B::ec(self.leaves[l].elem) == B::c0(),
            self.drop(g, ArenaIndex::Leaf(l)).lnk(self.g_drop(g, ArenaIndex::Leaf(l)))
        ensures ({
            let t = self.drop(g, ArenaIndex::Leaf(l));
            t.caches_ok() && t.root_cache_ok(rc)
        })
    {
        let a = ArenaIndex::Leaf(l);
        let t = self.drop(g, a);
        let p = self.par(a);
        let k = plc(g, a) - (g.fst)(p);
        self.lm_root(g);
        self.lm_drop_rest(g, a);
        self.lm_cx_any(a); self.lm_cxx(a, ArenaIndex::Internal(p)); self.lm_drop_cx(g, a);
        self.lm_ch_cache(p);
        assert(self.kids(p)[k] == B::c0());
        B::law_neutral(self.kids(p), k);
        if p != self.rt() {
            self.lm_par(g, ArenaIndex::Internal(p)); self.lm_node(g, self.par(ArenaIndex::Internal(p)));
            let pp = self.par(ArenaIndex::Internal(p));
            assert((g.ht)(pp) == (g.ht)(p) + 1);
            assert(t.nodes.contains_key(pp));
            assert(t.nodes[pp].ch == self.nodes[pp].ch);
        }
        t.lm_recached2(self.g_drop(g, a), self, g, p);
        if p != self.rt() { assert(t.nodes.contains_key(self.rt())); assert(t.nodes[self.rt()].ch == self.nodes[self.rt()].ch); }
        assert(t.root == self.root);
    }
}
impl<B: BTreeTrait> BTree<B> {
    // The leaf l of o holds the pieces ps now (it is gone if there are none): the first one in l itself, the others in new leaves
    // behind it, or the only other one at the front of the next leaf. Nothing else changed.
    spec fn pieced(&self, o: &Self, l: RawArenaIndex, ps: Seq<B::Elem>, q: (bool, SplittedLeaves)) -> bool {
        let i = (o.g@.lpos)(l);
        let a = q.1.arr@;
        &&& q.0 == (ps.len() > 0)
        &&& if ps.len() == 0 { a.len() == 0 && self.gone(o, l) } else {
            &&& self.leaf_nodes@.contains_key(l) && self.leaf_nodes@[l].elem == ps[0]
            &&& {
                ||| ps.len() == 1 && a.len() == 0 && self.order() == o.order() && self.ts().same_but(o.ts(), l, l, l)
                ||| {
                    let x = a[0].0;
                    &&& ps.len() == 2 && a.len() == 1 && i + 1 < o.order().len() && x == o.order()[i + 1] && self.order() == o.order() && self.has(a[0])
                    &&& self.el(x) == ps[1].content() + o.el(x) && self.ts().same_but(o.ts(), l, x, x)
                }
                ||| {
                    let x = a[0].0;
                    &&& ps.len() == 2 && a.len() == 1 && self.order() == o.order().insert(i + 1, x) && self.has(a[0]) && self.leaf_nodes@[x].elem == ps[1]
                    &&& !o.leaf_nodes.used().contains(x) && self.ts().same_but(o.ts(), l, x, x)
                }
                ||| {
                    let x = a[0].0;
                    let y = a[1].0;
                    &&& ps.len() == 3 && a.len() == 2 && self.order() == o.order().insert(i + 1, x).insert(i + 2, y)
                    &&& self.has(a[0]) && self.has(a[1]) && self.leaf_nodes@[x].elem == ps[1] && self.leaf_nodes@[y].elem == ps[2]
                    &&& !o.leaf_nodes.used().contains(x) && !o.leaf_nodes.used().contains(y) && x != y && self.ts().same_but(o.ts(), l, x, y)
                }
            }
        }
    }
    // so the content has them where the content of l was
    spec fn replaced(&self, o: &Self, l: RawArenaIndex, s: Seq<<B::Elem as HasLength>::Unit>) -> bool {
        let i = (o.g@.lpos)(l);
        self.all() == flat(o.items().subrange(0, i)) + s + flat(o.items().subrange(i + 1, o.order().len() as int))
    }
    proof fn lm_pieced2(&self, o: &Self, l: RawArenaIndex, x: RawArenaIndex, c: Seq<<B::Elem as HasLength>::Unit>, d: Seq<<B::Elem as HasLength>::Unit>)
        requires o.ts().lnk(o.g@), self.ts().lnk(self.g@), o.leaf_nodes@.contains_key(l), self.leaf_nodes@.contains_key(l), self.leaf_nodes@.contains_key(x), self.order() == o.order(),
            (o.g@.lpos)(l) + 1 < o.order().len(), x == o.order()[(o.g@.lpos)(l) + 1], self.el(l) == c, self.el(x) == d + o.el(x), self.ts().same_but(o.ts(), l, x, x)
        ensures self.replaced(o, l, c + d)
    {
        reveal(BTree::replaced);
        let i = (o.g@.lpos)(l);
        let n = o.order().len() as int;
        let fa = o.items().subrange(0, i);
        let fb = o.items().subrange(i + 1, n);
        let fc = o.items().subrange(i + 2, n);
        o.lm_at_o(); self.lm_at_o();
        o.lm_around(l);
        self.lm_items_part(o, l, x, x, i, i + 2, 0);
        assert(fb =~= seq![o.el(x)] + fc);
        lm_flat_cat(seq![o.el(x)], fc);
        lm_flat1(o.el(x));
        let m = seq![c] + seq![d + o.el(x)];
        assert(self.items()[i] == c && self.items()[i + 1] == d + o.el(x));
        assert(self.items() =~= fa + m + fc) by {
            let s = self.items();
            assert(s =~= s.subrange(0, i) + m + s.subrange(i + 2, n));
        }
        lm_flat3(fa, m, fc);
        lm_flat_cat(seq![c], seq![d + o.el(x)]);
        lm_flat1(c);
        lm_flat1(d + o.el(x));
        assert(self.all() == flat(fa) + (c + (d + o.el(x))) + flat(fc));
        assert(flat(fb) == o.el(x) + flat(fc));
        lm_assoc(flat(fa), c, d, o.el(x), flat(fc));
    }
    proof fn lm_same_then(&self, t: TS<B>, o: TS<B>, a: RawArenaIndex, b: RawArenaIndex, c: RawArenaIndex)
        requires self.ts().same_leaves(t), t.same_but(o, a, b, c)
        ensures self.ts().same_but(o, a, b, c)
    {
        reveal(TS::same_but); reveal(TS::same_leaves);
        assert forall|l: RawArenaIndex| l != a && l != b && l != c implies #[trigger] self.ts().same_leaf(o, l) by { assert(self.ts().same_leaf(t, l)); assert(t.same_leaf(o, l)); }
    }
    proof fn lm_pieced(&self, o: &Self, l: RawArenaIndex, ps: Seq<B::Elem>, q: (bool, SplittedLeaves))
        requires o.ts().lnk(o.g@), self.ts().lnk(self.g@), o.leaf_nodes@.contains_key(l), self.pieced(o, l, ps, q)
        ensures self.replaced(o, l, flat(texts(ps)))
    {
        reveal(BTree::pieced); reveal(BTree::replaced);
        let i = (o.g@.lpos)(l);
        let a = q.1.arr@;
        let n = o.order().len() as int;
        let m = self.order().len() as int;
        let fa = o.items().subrange(0, i);
        let fb = o.items().subrange(i + 1, n);
        o.lm_at_o(); self.lm_at_o();
        o.lm_around(l);
        if ps.len() == 0 {
            assert(texts(ps) =~= Seq::<Seq<<B::Elem as HasLength>::Unit>>::empty());
            assert(flat(texts(ps)) =~= Seq::<<B::Elem as HasLength>::Unit>::empty());
            assert(self.all() =~= flat(fa) + flat(texts(ps)) + flat(fb));
        } else if ps.len() == 1 {
            self.lm_around(l);
            self.lm_items_part(o, l, l, l, i, i + 1, 0);
            assert(texts(ps) =~= seq![ps[0].content()]);
            lm_flat1(ps[0].content());
        } else if ps.len() == 2 {
            let x = a[0].0;
            assert(texts(ps) =~= seq![ps[0].content()] + seq![ps[1].content()]);
            lm_flat_cat(seq![ps[0].content()], seq![ps[1].content()]);
            lm_flat1(ps[0].content()); lm_flat1(ps[1].content());
            if self.order() == o.order() {
                self.lm_pieced2(o, l, x, ps[0].content(), ps[1].content());
            } else {
                assert(self.order()[i + 1] == x && self.order()[i] == l);
                assert forall|q: int| i + 1 <= q < n implies self.order()[q + 1] == #[trigger] o.order()[q] by {}
                self.lm_items_part(o, l, x, x, i, i + 1, 1);
                assert(self.items() =~= fa + texts(ps) + fb) by {
                    assert(self.items() =~= self.items().subrange(0, i) + seq![self.items()[i], self.items()[i + 1]] + self.items().subrange(i + 2, m));
                }
                lm_flat3(fa, texts(ps), fb);
            }
        } else {
            let x = a[0].0;
            let y = a[1].0;
            assert(self.order()[i + 1] == x && self.order()[i] == l && self.order()[i + 2] == y);
            assert forall|q: int| i + 1 <= q < n implies self.order()[q + 2] == #[trigger] o.order()[q] by {}
            self.lm_items_part(o, l, x, y, i, i + 1, 2);
            assert(self.items() =~= fa + texts(ps) + fb) by {
                assert(self.items() =~= self.items().subrange(0, i) + seq![self.items()[i], self.items()[i + 1], self.items()[i + 2]] + self.items().subrange(i + 3, m));
            }
            lm_flat3(fa, texts(ps), fb);
        }
    }
    proof fn lm_case0(&self, o: &Self, l: RawArenaIndex, ps: Seq<B::Elem>, q: (bool, SplittedLeaves))
        requires o.ts().lnk(o.g@), self.ts().lnk(self.g@), o.leaf_nodes@.contains_key(l), ps.len() == 0, q.1.arr@.len() == 0, !q.0, self.gone(o, l)
        ensures self.pieced(o, l, ps, q), self.replaced(o, l, flat(texts(ps)))
    { reveal(BTree::pieced); self.lm_pieced(o, l, ps, q); }
    proof fn lm_case1(&self, o: &Self, l: RawArenaIndex, ps: Seq<B::Elem>, q: (bool, SplittedLeaves))
        requires o.ts().lnk(o.g@), self.ts().lnk(self.g@), o.leaf_nodes@.contains_key(l), ps.len() == 1, q.1.arr@.len() == 0, q.0, self.leaf_nodes@.contains_key(l), self.leaf_nodes@[l].elem == ps[0],
            self.order() == o.order(), self.ts().same_but(o.ts(), l, l, l)
        ensures self.pieced(o, l, ps, q), self.replaced(o, l, flat(texts(ps)))
    { reveal(BTree::pieced); self.lm_pieced(o, l, ps, q); }
    proof fn lm_case2(&self, o: &Self, l: RawArenaIndex, ps: Seq<B::Elem>, q: (bool, SplittedLeaves), x: RawArenaIndex)
        requires o.ts().lnk(o.g@), self.ts().lnk(self.g@), o.leaf_nodes@.contains_key(l), ps.len() == 2, q.1.arr@ =~= seq![LeafIndex(x)], q.0, self.leaf_nodes@.contains_key(l), self.leaf_nodes@[l].elem == ps[0],
            (o.g@.lpos)(l) + 1 < o.order().len(), x == o.order()[(o.g@.lpos)(l) + 1], self.order() == o.order(), self.leaf_nodes@.contains_key(x),
            self.el(x) == ps[1].content() + o.el(x), self.ts().same_but(o.ts(), l, x, x)
        ensures self.pieced(o, l, ps, q), self.replaced(o, l, flat(texts(ps)))
    { reveal(BTree::pieced); self.lm_pieced(o, l, ps, q); }
    proof fn lm_case3(&self, o: &Self, l: RawArenaIndex, ps: Seq<B::Elem>, q: (bool, SplittedLeaves), x: RawArenaIndex, two: bool, y: RawArenaIndex)
        requires o.ts().lnk(o.g@), self.ts().lnk(self.g@), o.leaf_nodes@.contains_key(l), ps.len() == (if two { 3int } else { 2 }), q.1.arr@ =~= (if two { seq![LeafIndex(x), LeafIndex(y)] } else { seq![LeafIndex(x)] }), q.0,
            self.leaf_nodes@.contains_key(l), self.leaf_nodes@[l].elem == ps[0], self.leaf_nodes@.contains_key(x), self.leaf_nodes@[x].elem == ps[1], !o.leaf_nodes.used().contains(x),
            two ==> self.leaf_nodes@.contains_key(y) && self.leaf_nodes@[y].elem == ps[2] && !o.leaf_nodes.used().contains(y) && x != y,
            self.order() == (if two { o.order().insert((o.g@.lpos)(l) + 1, x).insert((o.g@.lpos)(l) + 2, y) } else { o.order().insert((o.g@.lpos)(l) + 1, x) }),
            self.ts().same_but(o.ts(), l, x, if two { y } else { x })
        ensures self.pieced(o, l, ps, q), self.replaced(o, l, flat(texts(ps)))
    { reveal(BTree::pieced); self.lm_pieced(o, l, ps, q); }
//@ code src/lib.rs "BTree::update_leaf" tags=C04,C05,C07,C12,C16
//@ rw let count = $$body (true, splitted) } } ==> self.vx_update_leaf_new(node_idx, parent_idx, new_insert_1, new_insert_2, splitted) } }
    fn update_leaf(
        &mut self,
        node_idx: LeafIndex,
        f: impl FnOnce(&mut B::Elem) -> (bool, Option<B::Elem>, Option<B::Elem>),
    ) -> «(q:» (bool, SplittedLeaves)«)
        requires old(self).inv(), old(self).has(node_idx),
            forall|y: &mut B::Elem| *y == old(self).leaf_nodes@[node_idx.0].elem ==> call_requires(f, (y,)),
            forall|y: &mut B::Elem, r: (bool, Option<B::Elem>, Option<B::Elem>)| *y == old(self).leaf_nodes@[node_idx.0].elem && #[trigger] call_ensures(f, (y,), r)
                ==> lawful::<B>(*y, *final(y), r)
        ensures /*C04 C05*/ final(self).inv(), /*C07*/ final(self).uses(old(self)),
            exists|y: &mut B::Elem, r: (bool, Option<B::Elem>, Option<B::Elem>)| *y == old(self).leaf_nodes@[node_idx.0].elem && #[trigger] call_ensures(f, (y,), r)
                && /*C07 C12*/ final(self).pieced(old(self), node_idx.0, pieces(*final(y), r.1, r.2), q)
                && /*C12*/ final(self).replaced(old(self), node_idx.0, flat(texts(pieces(*final(y), r.1, r.2))))»
    {
        «let ghost o = *self; let ghost t0 = self.ts(); let ghost g = self.g@; let ghost l = node_idx.0; let ghost p0 = t0.leaves[l].parent; let ghost a = ArenaIndex::Leaf(l); let ghost e0 = t0.leaves[l].elem;
        proof { t0.lm_root(g); t0.lm_par(g, a); t0.lm_node(g, p0); t0.lm_elems_ok(l); t0.lm_same_self(); o.lm_used(&o); }»
        let mut splitted = SplittedLeaves::vx_default();
        let node = self.leaf_nodes.get_mut(node_idx.0).unwrap();
        let mut parent_idx = node.parent();
        let (need_update_cache, mut new_insert_1, mut new_insert_2) = f(&mut node.elem);
        «let ghost ye = node.elem; let ghost r0 = (need_update_cache, new_insert_1, new_insert_2); let ghost ps = pieces(ye, r0.1, r0.2);
        proof {
            assert(exists|y: &mut B::Elem| *y == e0 && #[trigger] call_ensures(f, (y,), r0) && *final(y) == ye);
            assert(lawful::<B>(e0, ye, r0));
        }»
        {
            if let Some(ref new_1) = new_insert_1 {
                if new_1.can_remove() {
                    new_insert_1 = new_insert_2.take();
                    if let Some(ref new_1) = new_insert_1 {
                        if new_1.can_remove() {
                            new_insert_1 = None;
                        }
                    }
                }
            }

            if let Some(ref new_2) = new_insert_2 {
                if new_2.can_remove() {
                    new_insert_2 = None;
                } else if new_insert_1.is_none() {
                    vx_swap(&mut new_insert_1, &mut new_insert_2);
                }
            }

            if node.elem.can_remove() {
                if let Some(new_1) = new_insert_1 {
                    node.elem = new_1;
                    new_insert_1 = new_insert_2.take();
                }
            }
        }

        let deleted = node.elem.can_remove();
        «let ghost e1 = node.elem; let ghost t1 = t0.set_elem(l, e1); let ghost i1 = new_insert_1; let ghost i2 = new_insert_2;
        proof {
            assert(deleted ==> ps =~= Seq::<B::Elem>::empty() && i1 is None && i2 is None && e1 == ye);
            assert(!deleted ==> ps =~= seq![e1] + part(i1) + part(i2) && ps[0] == e1);
            assert(i1 is None ==> i2 is None);
            assert(i1 is Some ==> (i1->0).ok() && !(i1->0).removable());
            assert(i2 is Some ==> (i2->0).ok() && !(i2->0).removable());
            t0.lm_changed(g, o.root_cache, l, e1);
            t0.lm_set_elem(g, l, e1);
            assert(self.ts().nodes =~= t0.nodes); assert(self.ts().leaves =~= t1.leaves); assert(self.ts() == t1);
        }»

        if need_update_cache {
            self.recursive_update_cache(node_idx.into(), B::USE_DIFF, None);
        }

        «let ghost v = *self; let ghost tv = self.ts();
        proof {
            t1.lm_same_self();
            if need_update_cache { t1.lm_sim(tv, g); t1.lm_sim_same(tv); }
            v.lm_same_then(t1, t0, l, l, l);
            assert(v.inv());
            tv.lm_root(g); tv.lm_leaf(g, l); tv.lm_par(g, a);
        } let ghost p = tv.par(a); let ghost k = plc(g, a) - (g.fst)(p);
        proof {
            tv.lm_roomy(p); assert(tv.nodes[p] == ns(v.in_nodes@[p]));
            tv.lm_slots(g, l);
        }»

        if deleted {
            assert!(new_insert_1.is_none());
            assert!(new_insert_2.is_none());
            «let ghost g1 = tv.g_drop(g, a); let ghost t2 = tv.without(g, a);
            proof {
                B::law_removable(e1);
                tv.lm_sized_any(g, p); tv.lm_drop(g, a); tv.lm_drop_rest(g, a); tv.lm_drop_neutral(g, v.root_cache, l);
                assert(tv.drop(g, a) == t2) by { reveal(TS::drop); reveal(TS::g_drop); reveal(TS::slotted); if t2.n(p) > k { assert(t2.nodes[p].ch[0] == tv.nodes[p].ch[if k > 0 { 0 } else { 1 }]); } }
            }»
            self.leaf_nodes.remove(node_idx.0).unwrap();
            let parent = self.in_nodes.get_mut(parent_idx.unwrap()).unwrap();
            let slot = Self::get_leaf_slot(node_idx.0, parent);
            parent.children.remove(slot);
            let is_lack = parent.is_lack();
            «let ghost u2 = *self;
            proof {
                self.g = Ghost(g1);
                assert(self.ts().nodes =~= t2.nodes); assert(self.ts().leaves =~= t2.leaves); assert(self.ts() == t2);
                t2.lm_sim_refl(); t2.lm_sim_but(t2, g1, p); t2.lm_same_self();
                assert(self.mend(p));
            } let ghost w = *self;»
            if is_lack {
                self.handle_lack_recursively(parent_idx);
            }

            «proof {
                assert(self.settled(&w));
                assert(self.ts().same_but(t0, l, l, l)) by {
                    reveal(TS::same_but);
                    assert forall|x: RawArenaIndex| x != l implies #[trigger] self.ts().same_leaf(t0, x) by { self.ts().lm_same_leaf(t2, x); assert(t2.same_leaf(tv, x)); assert(tv.same_leaf(t0, x)); }
                }
                self.ts().lm_same_leaf(t2, l);
                self.lm_gone(&o, l);
                self.lm_case0(&o, l, ps, (false, splitted));
            }»
            (false, splitted)
        } else if new_insert_1.is_none() {
            assert!(new_insert_2.is_none());
            «proof { self.lm_case1(&o, l, ps, (true, splitted)); }»
            return (true, splitted);
        } else {
            if new_insert_1.is_some() && new_insert_2.is_none() {
                let parent = self.in_nodes.get_mut(parent_idx.unwrap()).unwrap();
                let slot = Self::get_leaf_slot(node_idx.0, parent);
                if slot + 1 < parent.children.len() {
                    let next_idx = parent.children[slot + 1].arena.unwrap().into();
                    «let ghost x = tv.nodes[p].ch[k + 1].arena.ix(); let ghost ax = ArenaIndex::Leaf(x); proof { tv.lm_child(g, p, k + 1); tv.lm_leaf(g, x); tv.lm_elems_ok(x); assert(self.leaf_nodes@ =~= v.leaf_nodes@); assert(self.in_nodes@ =~= v.in_nodes@); }»
                    let next = self.get_elem_mut(next_idx).unwrap();
                    let new = new_insert_1.as_ref().unwrap();
                    if new.can_merge(next) {
                        next.merge_left(new);
                        «let ghost f1 = self.leaf_nodes@[x].elem; let ghost t2 = tv.set_elem(x, f1);
                        proof {
                            tv.lm_changed(g, v.root_cache, x, f1); tv.lm_set_elem(g, x, f1);
                            assert(self.ts().nodes =~= t2.nodes); assert(self.ts().leaves =~= t2.leaves); assert(self.ts() == t2);
                        }»
                        self.recursive_update_cache(next_idx.into(), B::USE_DIFF, None);
                        splitted.push(next_idx.into());
                        «proof {
                            let t3 = self.ts();
                            t2.lm_sim(t3, g); t2.lm_sim_same(t3);
                            t2.lm_but_trans(tv, t0, x, l, l, l, x, x);
                            self.lm_same_then(t2, t0, l, x, x);
                            t0.lm_leaf(g, x);
                            self.lm_case2(&o, l, ps, (true, splitted), x);
                        }»
                        return (true, splitted);
                    }
                }
            }

            «proof { assert(self.leaf_nodes@ =~= v.leaf_nodes@); assert(self.in_nodes@ =~= v.in_nodes@); assert(self.ts() == tv); } let ghost w = *self; let z =»  self.vx_update_leaf_new(node_idx, parent_idx, new_insert_1, new_insert_2, splitted)«;
            proof {
                let two = i2 is Some; let x1 = z.1.arr@[0].0; let x2 = z.1.arr@[1].0;
                self.ts().lm_but4(w.ts(), t0, l, x1, if two { x2 } else { x1 });
                self.ts().lm_but_leaf(w.ts(), l, x1, if two { x2 } else { x1 });
                self.lm_case3(&o, l, ps, z, x1, two, x2);
            } z»
        }
    }
//@ end
//@ code src/lib.rs "BTree::update_leaf" tags=C04,C05,C07,C12,C16
//@ rw fn update_leaf $$u_pre let count = $$body (true, splitted) } } ==> fn vx_update_leaf_new(&mut self, node_idx: LeafIndex, mut parent_idx: ArenaIndex, new_insert_1: Option<B::Elem>, new_insert_2: Option<B::Elem>, mut splitted: SplittedLeaves) -> (bool, SplittedLeaves) { let count = $$body (true, splitted) }
    fn vx_update_leaf_new(&mut self, node_idx: LeafIndex, mut parent_idx: ArenaIndex, new_insert_1: Option<B::Elem>, new_insert_2: Option<B::Elem>, mut splitted: SplittedLeaves) -> «(r:» (bool, SplittedLeaves)«)
        requires old(self).inv(), old(self).has(node_idx), parent_idx == ArenaIndex::Internal(old(self).leaf_nodes@[node_idx.0].parent), splitted.arr@.len() == 0,
            new_insert_1 is Some, (new_insert_1->0).ok(), new_insert_2 is Some ==> (new_insert_2->0).ok()
        ensures /*C04 C05*/ final(self).inv(), /*C07*/ final(self).uses(old(self)), r.0,
            ({
                let l = node_idx.0; let a = r.1.arr@; let two = new_insert_2 is Some; let x = a[0].0; let y = a[1].0; let i = (old(self).g@.lpos)(l);
                let u = old(self).leaf_nodes.used();
                &&& /*C12*/ a.len() == (if two { 2int } else { 1 }) && final(self).has(a[0]) && final(self).leaf_nodes@[x].elem == new_insert_1->0 && !u.contains(x)
                &&& /*C12*/ two ==> final(self).has(a[1]) && final(self).leaf_nodes@[y].elem == new_insert_2->0 && !u.contains(y) && x != y
                &&& /*C12*/ final(self).order() == (if two { old(self).order().insert(i + 1, x).insert(i + 2, y) } else { old(self).order().insert(i + 1, x) })
                &&& /*C07 C12*/ final(self).ts().same_but(old(self).ts(), x, x, if two { y } else { x })
            })»
    {
        «let ghost v = *self; let ghost tv = self.ts(); let ghost g = self.g@; let ghost l = node_idx.0; let ghost a = ArenaIndex::Leaf(l); let ghost i1 = new_insert_1; let ghost i2 = new_insert_2;
        let ghost p = tv.par(a); let ghost k = plc(g, a) - (g.fst)(p); let ghost mut w = v;
        proof {
            tv.lm_root(g); tv.lm_leaf(g, l); tv.lm_par(g, a); tv.lm_roomy(p); assert(tv.nodes[p] == ns(v.in_nodes@[p])); tv.lm_slots(g, l);
            tv.lm_roomy_but(p); v.lm_same_refl(&v); v.lm_used(&v);
        }»
            let count = if new_insert_1.is_some() { 1 } else { 0 }
                + if new_insert_2.is_some() { 1 } else { 0 };
            let parent = self.in_nodes.get_mut(parent_idx.unwrap()).unwrap();
            let parent = if parent.children.len() + count >= MAX_CHILDREN_NUM {
                «proof { assert(self.leaf_nodes@ =~= v.leaf_nodes@); assert(self.in_nodes@ =~= v.in_nodes@); assert(self.ts() == tv); }»
                self.split(parent_idx);
                «proof {
                    w = *self;
                    w.ts().lm_same_elems(tv); w.ts().lm_same_leaf(tv, l);
                    w.ts().lm_kept(tv, p, tv.n(p) / 2, l);
                    w.ts().lm_slots(w.g@, l);
                }»
                let node = self.leaf_nodes.get(node_idx.0).unwrap();
                parent_idx = node.parent();
                self.in_nodes.get_mut(parent_idx.unwrap()).unwrap()
            } else {
                parent
            };

            «let ghost tw = w.ts(); let ghost gw = w.g@; let ghost q = tw.par(a); let ghost kw = plc(gw, a) - (gw.fst)(q); let ghost cw = tw.nodes[q].ch; let ghost f1 = i1->0;
            proof {
                w.lm_used(&w);
                tw.lm_slots(gw, l);
                assert(tw.nodes[q] == ns(w.in_nodes@[q]));
                assert(*parent == w.in_nodes@[q]);
                assert(cw.len() + (if i2 is Some { 2int } else { 1 }) < MAX_CHILDREN_NUM);
            }»
            let mut new: HeaplessVec<Child<B>, 2> = HeaplessVec::new();
            if let Some(elem) = new_insert_1 {
                new.push({
                    let parent_index = parent_idx.unwrap();
                    let elem_cache = B::get_elem_cache(&elem);
                    let new_leaf_index = {
                        let leaf = LeafNode {
                            elem,
                            parent: parent_index,
                        };
                        let arena_index = self.leaf_nodes.insert(leaf);
                        ArenaIndex::Leaf(arena_index)
                    };
                    Child {
                        arena: new_leaf_index,
                        cache: elem_cache,
                    }
                }).unwrap();
            }
            «let ghost x1 = new@[0].arena.ix(); let ghost c1 = Child::<B> { arena: ArenaIndex::Leaf(x1), cache: B::ec(f1) };
            proof { assert(new@ =~= seq![c1]); assert(self.leaf_nodes@ == w.leaf_nodes@.insert(x1, LeafNode { elem: f1, parent: q })); assert(!w.leaf_nodes.used().contains(x1)); assert(self.leaf_nodes.used() == w.leaf_nodes.used().insert(x1)); }»
            if let Some(elem) = new_insert_2 {
                new.push({
                    let parent_index = parent_idx.unwrap();
                    let elem_cache = B::get_elem_cache(&elem);
                    let new_leaf_index = {
                        let leaf = LeafNode {
                            elem,
                            parent: parent_index,
                        };
                        let arena_index = self.leaf_nodes.insert(leaf);
                        ArenaIndex::Leaf(arena_index)
                    };
                    Child {
                        arena: new_leaf_index,
                        cache: elem_cache,
                    }
                }).unwrap();
            }
            «let ghost two = i2 is Some; let ghost x2 = new@[1].arena.ix(); let ghost f2 = i2->0; let ghost c2 = Child::<B> { arena: ArenaIndex::Leaf(x2), cache: B::ec(f2) };
            proof {
                if two { assert(new@ =~= seq![c1, c2]); } else { assert(new@ =~= seq![c1]); }
                assert(new@.len() == if two { 2int } else { 1 });
            }»
            let slot = Self::get_leaf_slot(node_idx.0, parent);
            «let ghost par0 = *parent;
            proof { assert(ns(par0).ch == par0.children@); lm_wedge0(cw, slot + 1, new@); lm_names2(new@); lm_names2(new@.take(0));
                assert(cw.len() + new@.len() < MAX_CHILDREN_NUM);
                assert(slot == kw);
                assert(slot + 1 <= cw.len());
                assert(parent.children@ == wedge(cw, slot + 1, new@.take(0)));
                assert(splitted.arr@ == names(new@.take(0)));
                assert(forall|j: int| 0 <= j < new@.len() ==> (#[trigger] new@[j]).arena is Leaf);
            }»
            for i in 0..new.len()
                «invariant new@.len() <= 2, slot + 1 <= cw.len(), cw.len() + new@.len() < MAX_CHILDREN_NUM,
                    parent.children@ == wedge(cw, slot + 1, new@.take(i as int)),
                    parent.parent == par0.parent, parent.parent_slot == par0.parent_slot,
                    splitted.arr@ == names(new@.take(i as int)), forall|j: int| 0 <= j < new@.len() ==> (#[trigger] new@[j]).arena is Leaf,»
            {
                let v = vx_clone(&new[i]);
                «proof { lm_wedge(cw, slot + 1, new@, i as int); lm_names(new@, i as int); }»
                splitted.push(v.arena);
                parent.children.insert(slot + 1 + i, v).unwrap();
            }

            assert!(!parent.is_full());
            «let ghost tb = tw.sprout(q, kw, x1, f1, two, x2, f2); let ghost gb = tw.g_sprout(gw, q, kw, x1, two, x2);
            proof {
                tw.lm_sprout(gw, l, q, kw, x1, f1, two, x2, f2, w.root_cache);
                self.g = Ghost(gb);
                assert(self.ts().nodes[q].ch == tb.nodes[q].ch);
                assert(self.ts().nodes =~= tb.nodes);
                assert(self.ts().leaves =~= tb.leaves);
                assert(self.ts() == tb);
            }»
            self.recursive_update_cache(parent_idx, B::USE_DIFF, None);
            «proof {
                tb.lm_sim(self.ts(), gb); tb.lm_sim_same(self.ts());
                self.ts().lm_same3(tb, tw, tv, x1, if two { x2 } else { x1 });
            }»
            (true, splitted)
        }
//@ end
}
