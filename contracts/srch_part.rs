// update_leaf_by_search. (C12, C04, C05, C07, C16)
//@ rw SplittedLeaves::default() ==> SplittedLeaves::vx_default()
//@ rw NodePath::default() ==> NodePath::new()
//@ rw take(&mut new_cache_and_child) ==> new_cache_and_child.take()
//@ rw unimplemented!() ==> panic!()
// the two summaries x, y take the place of c in any list
spec fn two_in<C>(a: Seq<C>, x: C, y: C, b: Seq<C>) -> Seq<C> { a + seq![x, y] + b }
spec fn both_for<B: BTreeTrait>(c: B::Cache, x: B::Cache, y: B::Cache) -> bool {
    forall|a: Seq<B::Cache>, b: Seq<B::Cache>| B::sum(#[trigger] two_in(a, x, y, b)) == B::sum(a + seq![c] + b)
}
// what the function given to update_leaf_by_search may do with the element e
spec fn lawful_d<B: BTreeTrait>(e: B::Elem, y: B::Elem, r: Option<(B::CacheDiff, Option<B::Elem>, Option<B::Elem>)>) -> bool {
    &&& y.ok()
    &&& match r {
        None => B::ec(y) == B::ec(e),
        Some((d, i1, i2)) => i2 is None && match i1 {
            None => B::app(B::ec(e), d) == B::ec(y),
            Some(x) => x.ok() && !y.removable() && both_for::<B>(B::app(B::ec(e), d), B::ec(y), B::ec(x)),
        }
    }
}
spec fn left_d<B: BTreeTrait>(y: B::Elem, r: Option<(B::CacheDiff, Option<B::Elem>, Option<B::Elem>)>) -> Seq<B::Elem> {
    match r {
        None => seq![y],
        Some((d, i1, i2)) => match i1 { None => if y.removable() { Seq::empty() } else { seq![y] }, Some(x) => seq![y, x] },
    }
}
impl<B: BTreeTrait> TS<B> {
    proof fn lm_ent(self, g: G, rc: B::Cache, p: RawArenaIndex)
        requires self.lnk(g), self.nodes.contains_key(p)
        ensures self.ent(g, rc, ArenaIndex::Internal(p)) == (if p == self.rt() { rc } else { self.nodes[self.par(ArenaIndex::Internal(p))].ch[self.nodes[p].slot as int].cache }),
            p != self.rt() ==> ({
                let q = self.par(ArenaIndex::Internal(p));
                self.nodes.contains_key(q) && q != p && (g.ht)(q) == (g.ht)(p) + 1 && self.nodes[p].slot < self.n(q) && self.nodes[q].ch[self.nodes[p].slot as int].arena == ArenaIndex::Internal(p)
            })
    {
        self.lm_root(g); self.lm_node(g, p);
        if p != self.rt() { self.lm_par(g, ArenaIndex::Internal(p)); }
    }
    // heights on a path (of a tree whose nodes may lack children)
    proof fn lm_path_h(self, g: G, s: Seq<Idx>, i: int)
        requires self.lnk(g), self.path_ok(s), 0 <= i < s.len()
        ensures self.has(s[i].arena), hgt(g, s[i].arena) == g.lv.len() - 1 - i
        decreases i
    {
        self.lm_root(g);
        if i > 0 {
            self.lm_path_h(g, s, i - 1);
            assert(self.step_ok(s, i - 1));
            self.lm_child(g, s[i - 1].arena.ix(), s[i].arr as int);
        }
    }
    proof fn lm_path_above(self, g1: G, o: TS<B>, g: G, s: Seq<Idx>, p: RawArenaIndex)
        requires o.path_ok(s), o.lnk(g), self.above(g1, o, g, p), self.root == o.root, s.last().arena == ArenaIndex::Internal(p)
        ensures self.path_ok(s)
    {
        o.lm_path_h(g, s, s.len() - 1);
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] self.step_ok(s, i) by {
            assert(o.step_ok(s, i));
            o.lm_path_h(g, s, i);
            self.lm_above(g1, o, g, p, s[i].arena.ix());
        }
    }
    proof fn lm_path_sim(self, t: TS<B>, s: Seq<Idx>)
        requires self.path_ok(s), self.sim(t)
        ensures t.path_ok(s)
    {
        self.lm_sim1(t, self.rt());
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] t.step_ok(s, i) by { assert(self.step_ok(s, i)); self.lm_sim1(t, s[i].arena.ix()); }
    }
    proof fn lm_path_nodes(self, t: TS<B>, s: Seq<Idx>)
        requires self.path_ok(s), t.nodes == self.nodes, t.root == self.root
        ensures t.path_ok(s)
    { assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] t.step_ok(s, i) by { assert(self.step_ok(s, i)); } }
    proof fn lm_roomy_at(self, m: RawArenaIndex, y: RawArenaIndex)
        requires self.roomy_but(m), y != m
        ensures self.roomy(y)
    { reveal(TS::roomy_but); assert(self.roomy(y)); }
    proof fn lm_same_eq(self, o: TS<B>)
        requires self.leaves == o.leaves
        ensures self.same_leaves(o)
    { reveal(TS::same_leaves); assert forall|l: RawArenaIndex| #[trigger] self.same_leaf(o, l) by {} }
    // the last step of a path
    proof fn lm_path_last(self, g: G, s: Seq<Idx>, x: Idx)
        requires self.lnk(g), self.path_ok(s.push(x)), s.len() > 0
        ensures ({
            let p = s.last().arena.ix();
            &&& s.last().arena == ArenaIndex::Internal(p) && self.nodes.contains_key(p) && x.arr < self.n(p) && self.nodes[p].ch[x.arr as int].arena == x.arena
            &&& self.par(x.arena) == p && plc(g, x.arena) == (g.fst)(p) + x.arr && x.arena != self.root && self.has(x.arena)
            &&& s == s.drop_last().push(s.last()) && self.path_ok(s) && (g.ht)(p) == hgt(g, x.arena) + 1
        })
    {
        let q = s.push(x);
        assert(self.step_ok(q, s.len() - 1));
        self.lm_path_h(g, q, s.len() - 1);
        self.lm_child(g, s.last().arena.ix(), x.arr as int);
        self.lm_path_cut(q, s.len() as int);
        assert(q.subrange(0, s.len() as int) =~= s);
        assert(s =~= s.drop_last().push(s.last()));
    }
    proof fn lm_path_root(self, x: Idx, s: Seq<Idx>)
        requires self.path_ok(s.push(x)), s.len() == 0
        ensures x.arena == self.root
    { assert(s.push(x)[0] == x); }
    // a leaf without a summary is taken out of its node
    proof fn lm_drop_pend(self, g: G, rc: B::Cache, l: RawArenaIndex, d: B::CacheDiff)
        requires self.lnk(g), self.leaves.contains_key(l), self.cx(ArenaIndex::Leaf(l)), self.sized(g), self.not_full(), self.elems_ok(), rc == self.kc(self.root), B::USE_DIFF,
            B::app(self.ent(g, rc, ArenaIndex::Leaf(l)), d) == B::c0()
        ensures ({
            let a = ArenaIndex::Leaf(l);
            let p = self.par(a);
            let t = self.without(g, a);
            let g1 = self.g_drop(g, a);
            let k = plc(g, a) - (g.fst)(p);
            &&& t == self.drop(g, a) && t.lnk(g1) && t.sized_but(g1, p) && t.not_full() && t.elems_ok() && t.pend(g1, rc, ArenaIndex::Internal(p), d)
            &&& t.nodes.contains_key(p) && t.root == self.root && g1.lv[0] == g.lv[0].remove((g.lpos)(l)) && t.above(g1, self, g, p) && t.same_leaves(TS { leaves: self.leaves.remove(l), ..self })
            &&& 0 <= k < self.n(p) && self.nodes[p].ch[k].arena == a && g1.lv.len() == g.lv.len() && g1.ht == g.ht
            &&& t == (TS { nodes: self.nodes.insert(p, NodeS { ch: self.nodes[p].ch.remove(k), ..self.nodes[p] }), leaves: self.leaves.remove(l), root: self.root })
        })
    {
        let a = ArenaIndex::Leaf(l);
        let p = self.par(a);
        let u = ArenaIndex::Internal(p);
        let t = self.without(g, a);
        let g1 = self.g_drop(g, a);
        let k = plc(g, a) - (g.fst)(p);
        self.lm_root(g);
        self.lm_slots(g, l);
        assert(self.drop(g, a) == t) by {
            reveal(TS::drop); reveal(TS::g_drop); reveal(TS::slotted);
            if t.n(p) > k { assert(t.nodes[p].ch[0] == self.nodes[p].ch[if k > 0 { 0 } else { 1 }]); }
        }
        self.lm_drop(g, a); self.lm_drop_rest(g, a);
        self.lm_cxx(a, u); self.lm_drop_cx(g, a); self.lm_drop_above(g, a);
        let kp = self.kids(p);
        let x = kp.update(k, B::app(kp[k], d));
        B::law_c0();
        B::law_app(kp, k, d);
        B::law_neutral(x, k);
        assert(x.remove(k) =~= kp.remove(k));
        assert(t.kids(p) == kp.remove(k));
        assert(t.kc(u) == B::app(self.kc(u), d));
        self.lm_ent(g, rc, p); t.lm_ent(g1, rc, p);
        self.lm_above_ch(t, g1, g, p);
        if p != self.rt() { self.lm_cx_one(g, a, self.par(u), self.nodes[p].slot as int); }
        reveal(TS::same_leaves);
        assert forall|y: RawArenaIndex| #[trigger] t.same_leaf(TS { leaves: self.leaves.remove(l), ..self }, y) by {}
    }
    // one entry
    proof fn lm_cx_one(self, g: G, a: ArenaIndex, m: RawArenaIndex, k: int)
        requires self.cx(a), self.nodes.contains_key(m), 0 <= k < self.n(m), self.nodes[m].ch[k].arena != a
        ensures self.nodes[m].ch[k].cache == self.kc(self.nodes[m].ch[k].arena)
    { reveal(TS::cx); assert(self.cx1(a, m)); }
    // what stays above p
    proof fn lm_above_ch(self, t: TS<B>, g1: G, g: G, p: RawArenaIndex)
        requires self.lnk(g), t.above(g1, self, g, p), self.nodes.contains_key(p), t.root == self.root
        ensures t.nodes[p].par == self.nodes[p].par, t.nodes[p].slot == self.nodes[p].slot, t.nodes.contains_key(p), (g1.ht)(p) == (g.ht)(p),
            p != self.rt() ==> t.nodes[self.par(ArenaIndex::Internal(p))].ch == self.nodes[self.par(ArenaIndex::Internal(p))].ch && t.kc(t.root) == self.kc(self.root),
    {
        self.lm_root(g); self.lm_node(g, p); self.lm_ent(g, B::sum(Seq::empty()), p);
        t.lm_above(g1, self, g, p, p);
        if p != self.rt() { t.lm_above(g1, self, g, p, self.par(ArenaIndex::Internal(p))); t.lm_above(g1, self, g, p, self.rt()); }
    }
    // p is still the one the difference is due to
    proof fn lm_heal_pend(self, g1: G, o: TS<B>, g: G, p: RawArenaIndex, rc: B::Cache, d: B::CacheDiff)
        requires self.healed(g1, o, g, p), o.lnk(g), o.nodes.contains_key(p), o.pend(g, rc, ArenaIndex::Internal(p), d)
        ensures self.pend(g1, rc, ArenaIndex::Internal(p), d)
    {
        self.lm_root(g1); o.lm_root(g);
        o.lm_above_ch(self, g1, g, p);
        self.lm_ent(g1, rc, p); o.lm_ent(g, rc, p);
    }
    // a new leaf behind l, which keeps its first part
    proof fn lm_put_pend(self, g: G, rc: B::Cache, l: RawArenaIndex, d: B::CacheDiff, x: RawArenaIndex, e: B::Elem)
        requires self.lnk(g), self.leaves.contains_key(l), self.cx(ArenaIndex::Leaf(l)), self.sized(g), self.not_full(), self.elems_ok(), rc == self.kc(self.root), B::USE_DIFF, !self.leaves.contains_key(x), e.ok(),
            both_for::<B>(B::app(self.ent(g, rc, ArenaIndex::Leaf(l)), d), B::ec(self.leaves[l].elem), B::ec(e)),
        ensures ({
            let a = ArenaIndex::Leaf(l);
            let p = self.par(a);
            let k = plc(g, a) - (g.fst)(p);
            let t = self.setc(p, k, B::ec(self.leaves[l].elem)).put(p, k + 1, x, e, B::ec(e));
            let g1 = g_ins(g, 0, (g.fst)(p) + k + 1, p, x, 0);
            &&& t.lnk(g1) && t.sized(g1) && t.roomy_but(p) && t.elems_ok() && t.pend(g1, rc, ArenaIndex::Internal(p), d)
            &&& t.nodes.contains_key(p) && t.root == self.root && g1.lv[0] == g.lv[0].insert((g.lpos)(l) + 1, x) && t.above(g1, self, g, p)
            &&& 0 <= k < self.n(p) && self.nodes[p].ch[k].arena == a && t.n(p) == self.n(p) + 1
            &&& t.nodes == self.nodes.insert(p, NodeS { ch: self.nodes[p].ch.update(k, Child { arena: a, cache: B::ec(self.leaves[l].elem) }).insert(k + 1, Child { arena: ArenaIndex::Leaf(x), cache: B::ec(e) }), ..self.nodes[p] })
            &&& t.leaves == self.leaves.insert(x, LeafNode { elem: e, parent: p })
        })
    {
        let a = ArenaIndex::Leaf(l);
        let p = self.par(a);
        let u = ArenaIndex::Internal(p);
        let k = plc(g, a) - (g.fst)(p);
        let c = B::ec(self.leaves[l].elem);
        let t0 = self.setc(p, k, c);
        let t = t0.put(p, k + 1, x, e, B::ec(e));
        let g1 = g_ins(g, 0, (g.fst)(p) + k + 1, p, x, 0);
        self.lm_root(g); self.lm_slots(g, l); self.lm_roomy(p);
        B::law_c0();
        self.lm_elems_ok(l); B::law_cok(self.leaves[l].elem);
        self.lm_up(g, a);
        self.lm_sim(t0, g);
        t0.lm_put(g, p, k + 1, x, e, B::ec(e)); t0.lm_put_cx(g, p, k + 1, x, e);
        assert(t.nodes =~= self.nodes.insert(p, NodeS { ch: self.nodes[p].ch.update(k, Child { arena: a, cache: c }).insert(k + 1, Child { arena: ArenaIndex::Leaf(x), cache: B::ec(e) }), ..self.nodes[p] }));
        assert(t.above(g1, self, g, p)) by {
            reveal(TS::above);
            assert forall|y: RawArenaIndex| self.nodes.contains_key(y) && (g.ht)(y) >= (g.ht)(p) implies #[trigger] t.abv1(g1, self, g, p, y) by {}
        }
        self.lm_above_ch(t, g1, g, p);
        let kp = self.kids(p);
        let s = kp.subrange(0, k);
        let z = kp.subrange(k + 1, kp.len() as int);
        assert(kp[k] == self.ent(g, rc, a));
        B::law_app(kp, k, d);
        assert(kp.update(k, B::app(kp[k], d)) =~= s + seq![B::app(kp[k], d)] + z);
        assert(t.kids(p) =~= two_in(s, c, B::ec(e), z));
        assert(t.kc(u) == B::app(self.kc(u), d));
        self.lm_ent(g, rc, p); t.lm_ent(g1, rc, p);
        if p != self.rt() { self.lm_cx_one(g, a, self.par(u), self.nodes[p].slot as int); }
    }
    // the two halves of m under p: the difference is due to p now
    proof fn lm_split_pend(self, g: G, m: RawArenaIndex, s: int, r: RawArenaIndex, c1: B::Cache, c2: B::Cache, rc: B::Cache, d: B::CacheDiff)
        requires self.lnk(g), self.nodes.contains_key(m), m != self.rt(), 0 < s < self.n(m), !self.nodes.contains_key(r), B::USE_DIFF,
            self.n(self.par(ArenaIndex::Internal(m))) < MAX_CHILDREN_NUM, self.pend(g, rc, ArenaIndex::Internal(m), d),
            c1 == B::sum(self.kids(m).subrange(0, s)), c2 == B::sum(self.kids(m).subrange(s, self.n(m))),
        ensures ({
            let p = self.par(ArenaIndex::Internal(m));
            let g1 = g_ins(g, (g.ht)(m), (g.pos)(m) + 1, p, r, (g.fst)(m) + s);
            let t1 = self.cut(g, m, s, r).paste(g1, p, self.nodes[m].slot as int, c1, Child { arena: ArenaIndex::Internal(r), cache: c2 });
            t1.pend(g1, rc, ArenaIndex::Internal(p), d) && t1.above(g1, self, g, p)
        })
    {
        let p = self.par(ArenaIndex::Internal(m));
        let u = ArenaIndex::Internal(p);
        let w = ArenaIndex::Internal(m);
        let k = self.nodes[m].slot as int;
        let n = self.n(m);
        let g1 = g_ins(g, (g.ht)(m), (g.pos)(m) + 1, p, r, (g.fst)(m) + s);
        let t1 = self.cut(g, m, s, r).paste(g1, p, k, c1, Child { arena: ArenaIndex::Internal(r), cache: c2 });
        self.lm_root(g);
        self.lm_node(g, m);
        self.lm_par(g, w);
        self.lm_node(g, p);
        self.lm_split(g, m, s, r, c1, c2);
        self.lm_cx_cok(w, m);
        let a = self.kids(m).subrange(0, s);
        let b = self.kids(m).subrange(s, n);
        let kp = self.kids(p);
        let x = kp.subrange(0, k);
        let y = kp.subrange(k + 1, self.n(p));
        assert(self.kids(m) =~= a + b);
        assert(self.ent(g, rc, w) == kp[k]);
        assert(kp.update(k, B::app(kp[k], d)) =~= x + seq![B::sum(a + b)] + y);
        B::law_app(kp, k, d);
        assert(t1.kids(p) =~= x + seq![c1, c2] + y);
        B::law_assoc(x, a, b, y);
        assert(t1.kc(u) == B::app(self.kc(u), d));
        assert(t1.kids(m) =~= a);
        assert(t1.kids(r) =~= b);
        B::law_cok_sum(a);
        B::law_cok_sum(b);
        assert forall|z: ArenaIndex| self.has(z) && z != w && z != u implies #[trigger] t1.kc(z) == self.kc(z) by {
            match z { ArenaIndex::Leaf(l) => {}, ArenaIndex::Internal(q) => { assert(t1.nodes[q].ch == self.nodes[q].ch); } }
        }
        assert(t1.cx(u)) by {
            reveal(TS::cx);
            assert forall|q: RawArenaIndex| #[trigger] t1.cx1(u, q) by {
                if t1.nodes.contains_key(q) {
                    if q != r { assert(self.nodes.contains_key(q)); assert(self.cx1(w, q)); }
                    assert(self.cx1(w, m));
                    assert forall|j: int| 0 <= j < t1.n(q) implies {
                        let c = #[trigger] t1.nodes[q].ch[j];
                        B::cok(c.cache) && (c.arena != u ==> c.cache == t1.kc(c.arena))
                    } by {
                        if q == r { assert(t1.nodes[q].ch[j] == self.nodes[m].ch[s + j]); self.lm_child(g, m, s + j); }
                        else if q == m { assert(t1.nodes[q].ch[j] == self.nodes[m].ch[j]); self.lm_child(g, m, j); }
                        else if q == p {
                            if j < k { assert(t1.nodes[q].ch[j] == self.nodes[q].ch[j]); self.lm_child(g, p, j); }
                            else if j > k + 1 { assert(t1.nodes[q].ch[j] == self.nodes[q].ch[j - 1]); self.lm_child(g, p, j - 1); }
                        } else { assert(t1.nodes[q].ch[j] == self.nodes[q].ch[j]); self.lm_child(g, q, j); }
                    }
                }
            }
        }
        assert(t1.above(g1, self, g, p)) by {
            reveal(TS::above);
            assert forall|z: RawArenaIndex| self.nodes.contains_key(z) && (g.ht)(z) >= (g.ht)(p) implies #[trigger] t1.abv1(g1, self, g, p, z) by { self.lm_node(g, z); assert(z != m); }
        }
        self.lm_above_ch(t1, g1, g, p);
        self.lm_ent(g, rc, p); t1.lm_ent(g1, rc, p);
        if p != self.rt() { self.lm_cx_one(g, w, self.par(u), self.nodes[p].slot as int); }
    }
    // the slots behind the new node
    proof fn lm_split_slot(self, g: G, m: RawArenaIndex, s: int, r: RawArenaIndex, c1: B::Cache, c2: B::Cache)
        requires self.lnk(g), self.nodes.contains_key(m), m != self.rt(), 0 < s < self.n(m), !self.nodes.contains_key(r),
            self.n(self.par(ArenaIndex::Internal(m))) < MAX_CHILDREN_NUM,
        ensures ({
            let p = self.par(ArenaIndex::Internal(m));
            let k = self.nodes[m].slot as int;
            let g1 = g_ins(g, (g.ht)(m), (g.pos)(m) + 1, p, r, (g.fst)(m) + s);
            let x = Child { arena: ArenaIndex::Internal(r), cache: c2 };
            let tc = self.cut(g, m, s, r);
            let t1 = tc.paste(g1, p, k, c1, x);
            let t2 = tc.setch(p, self.nodes[p].ch.update(k, Child { arena: self.nodes[p].ch[k].arena, cache: c1 }).insert(k + 1, x));
            tc.nodes[p] == self.nodes[p] && t2.can_slot(g1, p, k + 1) && t1 == t2.slotted(g1, p, k + 1) && self.nodes[p].ch[0].arena is Internal && tc.nodes.contains_key(p) && p != r
        })
    {
        let p = self.par(ArenaIndex::Internal(m));
        let k = self.nodes[m].slot as int;
        let f = (g.fst)(m) + s;
        let g1 = g_ins(g, (g.ht)(m), (g.pos)(m) + 1, p, r, f);
        let x = Child { arena: ArenaIndex::Internal(r), cache: c2 };
        let tc = self.cut(g, m, s, r);
        let t1 = tc.paste(g1, p, k, c1, x);
        let t2 = tc.setch(p, self.nodes[p].ch.update(k, Child { arena: self.nodes[p].ch[k].arena, cache: c1 }).insert(k + 1, x));
        self.lm_root(g); self.lm_node(g, m); self.lm_par(g, ArenaIndex::Internal(m)); self.lm_node(g, p);
        self.lm_split(g, m, s, r, c1, c2);
        t1.lm_node(g1, p);
        assert forall|j: int| k + 1 <= j < t2.n(p) implies #[trigger] t2.slotting(g1, p, j) by {
            t1.lm_child(g1, p, j);
            let a = t2.nodes[p].ch[j].arena;
            assert(t1.nodes[p].ch[j].arena == a);
            assert(t1.nodes.dom() =~= t2.nodes.dom());
            if j > k + 1 {
                self.lm_child(g, p, j - 1);
                assert(a == self.nodes[p].ch[j - 1].arena);
                self.lm_par(g, a);
                assert(t2.nodes[a.ix()].par == tc.nodes[a.ix()].par);
                assert(tc.nodes[a.ix()].par == self.nodes[a.ix()].par);
            } else {
                assert(!hit(g, (g.ht)(m) - 1, f, (g.fst)(m) + self.n(m), ArenaIndex::Internal(r))) by { reveal(TS::lnk); assert(self.lvl_ok(g, (g.ht)(m) - 1, (g.pos)(r))); }
                assert(tc.nodes[r].par == self.nodes[m].par);
                assert(t2.nodes[r].par == tc.nodes[r].par);
            }
            assert(t2.nodes[p].ch.len() == t1.nodes[p].ch.len());
            assert((g1.ht)(p) == (g.ht)(p));
            assert(a == aix(g1, (g1.ht)(p) - 1, (g1.fst)(p) + j));
            assert(a is Internal);
            assert(t2.has(a));
            assert(hgt(g1, a) == (g1.ht)(p) - 1);
            assert(plc(g1, a) == (g1.fst)(p) + j);
            assert(t2.nodes[a.ix()].par == Some(ArenaIndex::Internal(p)));
        }
        self.lm_child(g, p, 0);
        assert(t2.nodes[p].ch[0].arena == self.nodes[p].ch[0].arena);
    }
}

impl<B: BTreeTrait> BTree<B> {
    // where the query leads
    spec fn sought<Q: Query<B>>(&self, q: Q::QueryArg) -> Cursor { self.ts().descend(self.g@, Q::q_init(q), q, self.ts().rt(), true).0.cursor }
    // tm, with a new leaf x that no node has yet
    spec fn loose(&self, tm: TS<B>, l: RawArenaIndex, x: RawArenaIndex) -> bool {
        &&& !tm.leaves.contains_key(x) && self.leaf_nodes@.contains_key(x) && self.leaf_nodes@[x].elem.ok() && self.leaf_nodes@[x].parent == tm.leaves[l].parent
        &&& self.ts() == (TS { leaves: tm.leaves.insert(x, self.leaf_nodes@[x]), ..tm })
    }
    // t, with the upper half of m in a node r that no node has yet
    spec fn halved(&self, t: TS<B>, m: RawArenaIndex, c: B::Cache, r: Child<B>) -> bool {
        let s = t.n(m) / 2;
        &&& t.nodes.contains_key(m) && 2 <= t.n(m) <= MAX_CHILDREN_NUM && t.roomy_but(m) && r.arena is Internal && !t.has(r.arena)
        &&& self.ts() == t.cut(self.g@, m, s, r.arena.ix()) && c == B::sum(t.kids(m).subrange(0, s)) && r.cache == B::sum(t.kids(m).subrange(s, t.n(m)))
    }
//@ code src/lib.rs "BTree::update_leaf_by_search" tags=C04,C05,C07,C12,C16
//@ rw fn update_leaf_by_search $$u_pre let mut is_first $$u_del return (None, splitted); } $$u_post (Some(ans.cursor), splitted) } ==> fn vx_ubs_del(&mut self, mut path: NodePath, mut child_arr_pos: u8, node_idx: ArenaIndex, diff: B::CacheDiff) { let mut is_first $$u_del }
    fn vx_ubs_del(&mut self, mut path: NodePath, mut child_arr_pos: u8, node_idx: ArenaIndex, diff: B::CacheDiff«, Ghost(tm): Ghost<TS<B>>») «
        requires B::USE_DIFF, node_idx is Leaf, tm.lnk(old(self).g@), tm.leaves.contains_key(node_idx.ix()), tm.cx(node_idx), tm.sized(old(self).g@), tm.not_full(), tm.elems_ok(),
            old(self).root_cache == tm.kc(tm.root), B::app(tm.ent(old(self).g@, old(self).root_cache, node_idx), diff) == B::c0(),
            old(self).ts() == (TS { leaves: tm.leaves.remove(node_idx.ix()), ..tm }), tm.path_ok(path@.push(Idx { arena: node_idx, arr: child_arr_pos })),
        ensures /*C04 C05*/ final(self).inv(), /*C07*/ final(self).uses(old(self)), /*C12*/ final(self).order() == old(self).order().remove((old(self).g@.lpos)(node_idx.ix())),
            /*C07 C12*/ final(self).ts().same_leaves(old(self).ts())»
    {
        «let ghost o = *self; let ghost g0 = self.g@; let ghost l = node_idx.ix(); let ghost a = node_idx; let ghost rc = self.root_cache;
        let ghost lv0 = g0.lv[0].remove((g0.lpos)(l)); let ghost mut c = l; let ghost mut tc = tm; let ghost mut pp = path@;
        proof { tm.lm_root(g0); tm.lm_drop_pend(g0, rc, l, diff); self.ts().lm_same_self(); }»
            let mut is_first = true;
            let mut is_child_lack = false;
            let mut child_idx = node_idx;

            while let Some(Idx {
                arena: parent_idx,
                arr: parent_arr_pos,
            }) = path.pop()
                «invariant_except_break true
                invariant
                    B::USE_DIFF, tm.lnk(g0), tm.leaves.contains_key(l), tm.cx(a), a == ArenaIndex::Leaf(l), tm.sized(g0), tm.not_full(), tm.elems_ok(), rc == tm.kc(tm.root), B::app(tm.ent(g0, rc, a), diff) == B::c0(),
                    self.root_cache == rc, self.root == tm.root, tm.root is Internal, o.ts() == (TS { leaves: tm.leaves.remove(l), ..tm }), lv0 == g0.lv[0].remove((g0.lpos)(l)),
                    tc.path_ok(path@.push(Idx { arena: child_idx, arr: child_arr_pos })), self.uses(&o), self.ts().same_leaves(o.ts()),
                    is_first ==> tc == tm && self.ts() == o.ts() && self.g@ == g0 && child_idx == a && !is_child_lack,
                    !is_first ==> {
                        &&& tc == self.ts() && child_idx == ArenaIndex::Internal(c) && tc.lnk(self.g@) && tc.nodes.contains_key(c) && tc.sized_but(self.g@, c) && tc.not_full() && tc.elems_ok()
                        &&& tc.pend(self.g@, rc, child_idx, diff) && (!is_child_lack ==> tc.n(c) > 0) && self.g@.lv[0] == lv0
                    },
                    pp == path@,
                ensures path@.len() == 0
                decreases path@.len()»
            {
                «let ghost v = *self; let ghost tv = self.ts(); let ghost g = self.g@; let ghost s = path@.push(Idx { arena: parent_idx, arr: parent_arr_pos }); let ghost x = Idx { arena: child_idx, arr: child_arr_pos }; let ghost first = is_first;
                proof { assert(s =~= pp); tc.lm_path_last(g, s, x); } let ghost p = parent_idx.ix(); let ghost k = child_arr_pos as int; let ghost mut tp = tv; let ghost mut gp = g;
                proof {
                    assert(s.drop_last() =~= path@);
                    assert(tv.nodes[p] == ns(v.in_nodes@[p]));
                    if is_first {
                        tm.lm_drop_pend(g0, rc, l, diff);
                        tp = tm.without(g0, a); gp = tm.g_drop(g0, a);
                        tp.lm_path_above(gp, tm, g0, s, p);
                    } else {
                        tv.lm_pend_up(g, rc, child_idx, diff);
                        tp = tv.setc(p, k, B::app(tv.nodes[p].ch[k].cache, diff));
                        tv.lm_sim(tp, g); tv.lm_sim_but(tp, g, c); tv.lm_sim_same(tp); tv.lm_path_sim(tp, s); tv.lm_sim1(tp, c); tv.lm_sim1(tp, p);
                    }
                }»
                let parent = self.get_internal_mut(parent_idx);
                if is_first {
                    parent.children.remove(child_arr_pos as usize);
                    is_first = false;
                } else {
                    B::apply_cache_diff(&mut parent.children[child_arr_pos as usize].cache, &diff);
                }

                let is_lack = parent.is_lack();
                «proof {
                    assert(ns(*parent).ch == tp.nodes[p].ch);
                    assert(self.ts().nodes =~= tp.nodes); assert(self.ts().leaves =~= tp.leaves); assert(self.ts() == tp);
                    self.g = Ghost(gp);
                    B::law_c0(); tp.lm_ent(gp, rc, p);
                    if !first { self.ts().lm_same_trans(tv, o.ts()); assert(tp.par(child_idx) == p); assert(tp.cx(ArenaIndex::Internal(tp.par(child_idx)))); assert(self.mends(c)); }
                } let ghost w = *self;»

                if is_child_lack {
                    self.handle_lack_single_layer(child_idx);
                    «proof {
                        self.ts().lm_heal_pend(self.g@, tp, gp, p, rc, diff);
                        self.ts().lm_path_above(self.g@, tp, gp, s, p);
                        self.ts().lm_same_trans(tp, o.ts());
                    }»
                }

                «proof {
                    if !first && !is_child_lack { tp.lm_sized(gp, c); tp.lm_sized_any(gp, p); }
                    c = p; tc = self.ts(); pp = path@;
                    assert(path@.push(Idx { arena: parent_idx, arr: parent_arr_pos }) =~= s);
                }»
                is_child_lack = is_lack;
                child_idx = parent_idx;
                child_arr_pos = parent_arr_pos;
            }

            «proof { tc.lm_path_root(Idx { arena: child_idx, arr: child_arr_pos }, path@); }
            let ghost t = self.ts(); let ghost g = self.g@; let ghost v = *self;
            proof { t.lm_root(g); t.lm_cx_root(g); B::law_c0(); assert(t.nodes[c] == ns(v.in_nodes@[c])); }»
            B::apply_cache_diff(&mut self.root_cache, &diff);
            «let ghost w = *self; let ghost mut done = false;
            proof { assert(self.ts() == t); assert(self.mend(c)); t.lm_same_self(); }»

            if is_child_lack {
                let root = self.get_internal_mut(self.root);
                if root.children.len() == 1 && !root.is_child_leaf() {
                    «proof { assert(self.in_nodes@ =~= v.in_nodes@); assert(self.ts() == t); }»
                    self.try_reduce_levels();
                    «proof { done = true; self.ts().lm_same_trans(t, o.ts()); }»
                }
            }
            «proof {
                if !done {
                    assert(self.in_nodes@ =~= v.in_nodes@); assert(self.ts() == t);
                    if t.n(c) == 0 { t.lm_bare(g); self.g = Ghost(g_flat(g, c)); } else { t.lm_sized(g, c); }
                    assert(self.order() =~= lv0);
                }
            }»
    }
//@ end
//@ code src/lib.rs "BTree::update_leaf_by_search" tags=C04,C05,C07,C12,C16
//@ rw fn update_leaf_by_search $$u_pre splitted.push(child.arena); new_cache_and_child = Some((cache, child)); } $$u_ins (Some(ans.cursor), splitted) } ==> fn vx_ubs_ins(&mut self, mut path: NodePath, mut child_arr_pos: u8, diff: B::CacheDiff, mut new_cache_and_child: Option<(B::Cache, Child<B>)>) { $$u_ins }
    fn vx_ubs_ins(&mut self, mut path: NodePath, mut child_arr_pos: u8, diff: B::CacheDiff, mut new_cache_and_child: Option<(B::Cache, Child<B>)>«, Ghost(tm): Ghost<TS<B>>, Ghost(l): Ghost<RawArenaIndex>») «
        requires B::USE_DIFF, tm.lnk(old(self).g@), tm.leaves.contains_key(l), tm.cx(ArenaIndex::Leaf(l)), tm.sized(old(self).g@), tm.not_full(), tm.elems_ok(),
            old(self).root_cache == tm.kc(tm.root), tm.path_ok(path@.push(Idx { arena: ArenaIndex::Leaf(l), arr: child_arr_pos })),
            match new_cache_and_child {
                None => old(self).ts() == tm && B::app(tm.ent(old(self).g@, old(self).root_cache, ArenaIndex::Leaf(l)), diff) == B::ec(tm.leaves[l].elem),
                Some((c, x)) => old(self).loose(tm, l, x.arena.ix()) && x.arena is Leaf && c == B::ec(tm.leaves[l].elem) && x.cache == B::ec(old(self).leaf_nodes@[x.arena.ix()].elem)
                    && both_for::<B>(B::app(tm.ent(old(self).g@, old(self).root_cache, ArenaIndex::Leaf(l)), diff), c, x.cache),
            }
        ensures /*C04 C05*/ final(self).inv(), /*C07*/ final(self).uses(old(self)), /*C07 C12*/ final(self).ts().same_leaves(old(self).ts()),
            /*C12*/ final(self).order() == (match new_cache_and_child { None => old(self).order(), Some((c, x)) => old(self).order().insert((old(self).g@.lpos)(l) + 1, x.arena.ix()) })»
    {
        «let ghost o = *self; let ghost g0 = self.g@; let ghost a = ArenaIndex::Leaf(l); let ghost rc = self.root_cache; let ghost nc0 = new_cache_and_child;
        let ghost lv1 = (match nc0 { None => g0.lv[0], Some((c, x)) => g0.lv[0].insert((g0.lpos)(l) + 1, x.arena.ix()) });
        let ghost mut c = a; let ghost mut tc = tm; let ghost mut pp = path@; let ghost mut mode = (if nc0 is Some { 0int } else { 1 });
        proof { B::law_c0(); tm.lm_root(g0); self.ts().lm_same_self(); }»

        while let Some(Idx {
            arena: parent_idx,
            arr: parent_arr_pos,
        }) = path.pop()
            «invariant_except_break true
            invariant
                B::USE_DIFF, B::exact0(), a == ArenaIndex::Leaf(l), self.root_cache == rc, self.root == o.root, tc.root == o.root, o.root is Internal, self.uses(&o), pp == path@, tc.path_ok(path@.push(Idx { arena: c, arr: child_arr_pos })),
                tm.lnk(g0), tm.leaves.contains_key(l), tm.cx(a), tm.sized(g0), tm.not_full(), tm.elems_ok(), rc == tm.kc(tm.root), tc.has(c),
                0 <= mode <= 2, mode == 1 ==> new_cache_and_child is None,
                mode == 0 ==> tc == tm && c == a && new_cache_and_child == nc0 && nc0 is Some && self.leaf_nodes@ == o.leaf_nodes@ && self.in_nodes@ == o.in_nodes@ && self.g@ == g0 && ({
                    let x = (nc0->0).1;
                    o.loose(tm, l, x.arena.ix()) && x.arena is Leaf && (nc0->0).0 == B::ec(tm.leaves[l].elem) && x.cache == B::ec(o.leaf_nodes@[x.arena.ix()].elem)
                        && both_for::<B>(B::app(tm.ent(g0, rc, a), diff), (nc0->0).0, x.cache)
                }) && lv1 == g0.lv[0].insert((g0.lpos)(l) + 1, (nc0->0).1.arena.ix()),
                mode > 0 ==> tc.lnk(self.g@) && tc.sized(self.g@) && tc.elems_ok() && tc.pend(self.g@, rc, c, diff) && tc.same_leaves(o.ts()) && self.g@.lv[0] == lv1,
                mode == 1 ==> tc.not_full() && tc == self.ts(),
                mode == 2 ==> new_cache_and_child is Some && c is Internal && self.halved(tc, c.ix(), (new_cache_and_child->0).0, (new_cache_and_child->0).1),
            ensures path@.len() == 0
            decreases path@.len()»
        {
            «let ghost v = *self; let ghost tv = self.ts(); let ghost g = self.g@; let ghost s = path@.push(Idx { arena: parent_idx, arr: parent_arr_pos }); let ghost x = Idx { arena: c, arr: child_arr_pos };
            proof { assert(s =~= pp); tc.lm_path_last(g, s, x); } let ghost p = parent_idx.ix(); let ghost k = child_arr_pos as int; let ghost mut tp = tc; let ghost mut gp = g;
            proof {
                assert(s.drop_last() =~= path@);
                assert(path@.push(Idx { arena: parent_idx, arr: parent_arr_pos }) =~= s);
                tc.lm_path_h(g, s, s.len() - 1);
                tc.lm_node(g, p);
                if mode == 0 {
                    let e = o.leaf_nodes@[(nc0->0).1.arena.ix()].elem;
                    tm.lm_put_pend(g0, rc, l, diff, (nc0->0).1.arena.ix(), e);
                    tp = tm.setc(p, k, B::ec(tm.leaves[l].elem)).put(p, k + 1, (nc0->0).1.arena.ix(), e, B::ec(e));
                    gp = g_ins(g, 0, (g.fst)(p) + k + 1, p, (nc0->0).1.arena.ix(), 0);
                    tm.lm_slots(g, l); tm.lm_roomy(p);
                    assert(tm.nodes[p] == ns(v.in_nodes@[p]));
                    tp.lm_path_above(gp, tm, g, s, p);
                    assert(tp.leaves =~= o.leaf_nodes@);
                    tp.lm_same_eq(o.ts());
                    assert(gp.lv[0] =~= lv1);
                } else if mode == 2 {
                    let m = c.ix(); let sp = tc.n(m) / 2; let r = (new_cache_and_child->0).1; let c1 = (new_cache_and_child->0).0;
                    tc.lm_root(g); tc.lm_node(g, m); tc.lm_roomy_at(m, p);
                    tc.lm_split(g, m, sp, r.arena.ix(), c1, r.cache); tc.lm_split_rest(g, m, sp, r.arena.ix(), c1, r.cache);
                    tc.lm_split_pend(g, m, sp, r.arena.ix(), c1, r.cache, rc, diff); tc.lm_split_slot(g, m, sp, r.arena.ix(), c1, r.cache);
                    gp = g_ins(g, (g.ht)(m), (g.pos)(m) + 1, p, r.arena.ix(), (g.fst)(m) + sp);
                    tp = tc.cut(g, m, sp, r.arena.ix()).paste(gp, p, tc.nodes[m].slot as int, c1, Child { arena: r.arena, cache: r.cache });
                    assert(tv.nodes[p] == ns(v.in_nodes@[p]));
                    assert(tc.nodes[m].slot == k);
                    tp.lm_path_above(gp, tc, g, s, p);
                    tp.lm_same_trans(tc, o.ts()); tp.lm_same_elems(tc);
                    assert(gp.lv[0] =~= lv1);
                } else {
                    if c is Leaf { tc.lm_elems_ok(c.ix()); }
                    tc.lm_pend_up(g, rc, c, diff);
                    tp = tc.setc(p, k, B::app(tc.nodes[p].ch[k].cache, diff));
                    tc.lm_sim(tp, g); tc.lm_sim_same(tp); tc.lm_path_sim(tp, s); tc.lm_sim1(tp, p); tp.lm_same_trans(tc, o.ts());
                    assert(tc.nodes[p] == ns(v.in_nodes@[p]));
                }
                if mode != 1 { tp.lm_node(gp, p); tp.lm_cx_cok(ArenaIndex::Internal(p), p); }
            }»
            let parent = self.get_internal_mut(parent_idx);
            match new_cache_and_child.take() {
                Some((cache, child)) => {
                    parent.children[child_arr_pos as usize].cache = cache;
                    parent
                        .children
                        .insert(child_arr_pos as usize + 1, child)
                        .unwrap();
                    let is_full = parent.is_full();
                    «let ghost np = *parent;
                    proof {
                        assert(mode == 0 ==> ns(np).ch == tp.nodes[p].ch);
                        assert(np.children@.len() == tp.n(p));
                    }»
                    if !parent.is_child_leaf() {
                        «proof {
                            assert(mode == 2);
                            self.g = Ghost(gp);
                            let t2 = tv.setch(p, np.children@);
                            assert(self.ts().nodes =~= t2.nodes); assert(self.ts() == t2);
                        }»
                        self.update_children_parent_slot_from(
                            parent_idx,
                            child_arr_pos as usize + 1,
                        );
                    }
                    «proof {
                        if mode == 0 { self.g = Ghost(gp); assert(self.ts().nodes =~= tp.nodes); }
                        assert(self.ts() == tp);
                    }»
                    if is_full {
                        let (_, _, this_cache, right_child) = self.split_node(parent_idx, None);
                        new_cache_and_child = Some((this_cache, right_child));
                        «proof { mode = 2; }»
                    }
                    «proof { if !is_full { tp.lm_roomy_all(p); mode = 1; } tc = tp; c = ArenaIndex::Internal(p); }»
                }
                None => {
                    B::apply_cache_diff(&mut parent.children[child_arr_pos as usize].cache, &diff);
                    «proof {
                        assert(self.ts().nodes[p].ch == tp.nodes[p].ch);
                        assert(self.ts().nodes =~= tp.nodes); assert(self.ts() == tp);
                        tc = tp; c = ArenaIndex::Internal(p);
                    }»
                }
            }

            «proof { pp = path@; }»
            child_arr_pos = parent_arr_pos;
        }

        «let ghost g = self.g@; let ghost v = *self; let ghost m = c.ix();
        proof { tc.lm_path_root(Idx { arena: c, arr: child_arr_pos }, path@); assert(mode > 0); tc.lm_root(g); tc.lm_cx_root(g); }»
        if let Some((cache, child)) = new_cache_and_child {
            self.split_root(cache, child«, Ghost(tc), Ghost(tc.n(c.ix()) / 2)»);
            «proof { self.ts().lm_same_elems(tc); self.ts().lm_same_trans(tc, o.ts()); }»
        } else {
            B::apply_cache_diff(&mut self.root_cache, &diff);
            «proof { assert(self.ts() == tc); }»
        }
    }
//@ end
//@ code src/lib.rs "BTree::update_leaf_by_search" tags=C04,C05,C07,C12,C16
//@ rw let mut is_first $$u_del return (None, splitted); } ==> self.vx_ubs_del(path, child_arr_pos, node_idx, diff); return (None, splitted); }
//@ rw splitted.push(child.arena); new_cache_and_child = Some((cache, child)); } $$u_ins (Some(ans.cursor), splitted) } ==> splitted.push(child.arena); new_cache_and_child = Some((cache, child)); } self.vx_ubs_ins(path, child_arr_pos, diff, new_cache_and_child); (Some(ans.cursor), splitted) }
    fn update_leaf_by_search<Q: Query<B>>(
        &mut self,
        q: &Q::QueryArg,
        f: impl FnOnce(
            &mut B::Elem,
            QueryResult,
        ) -> Option<(B::CacheDiff, Option<B::Elem>, Option<B::Elem>)>,
    ) -> «(z:» (Option<Cursor>, SplittedLeaves)«)
        requires old(self).inv(), old(self).order().len() > 0, old(self).g@.lv.len() <= 16, B::USE_DIFF,
            old(self).ts().descent_ok(old(self).g@, Q::q_init(*q), *q, old(self).ts().rt()),
            forall|y: &mut B::Elem, a: QueryResult| *y == old(self).leaf_nodes@[old(self).sought::<Q>(*q).leaf.0].elem && a.cursor == old(self).sought::<Q>(*q) ==> call_requires(f, (y, a)),
            forall|y: &mut B::Elem, a: QueryResult, r: Option<(B::CacheDiff, Option<B::Elem>, Option<B::Elem>)>|
                *y == old(self).leaf_nodes@[old(self).sought::<Q>(*q).leaf.0].elem && a.cursor == old(self).sought::<Q>(*q) && #[trigger] call_ensures(f, (y, a), r) ==> lawful_d::<B>(*y, *final(y), r)
        ensures /*C04 C05*/ final(self).inv(), /*C07*/ final(self).uses(old(self)), old(self).has(old(self).sought::<Q>(*q).leaf),
            /*C12*/ z.0 is Some ==> z.0->0 == old(self).sought::<Q>(*q),
            exists|y: &mut B::Elem, a: QueryResult, r: Option<(B::CacheDiff, Option<B::Elem>, Option<B::Elem>)>|
                *y == old(self).leaf_nodes@[old(self).sought::<Q>(*q).leaf.0].elem && a.cursor == old(self).sought::<Q>(*q) && #[trigger] call_ensures(f, (y, a), r)
                && /*C07 C12*/ final(self).pieced(old(self), old(self).sought::<Q>(*q).leaf.0, left_d::<B>(*final(y), r), (z.0 is Some, z.1))
                && /*C12*/ final(self).replaced(old(self), old(self).sought::<Q>(*q).leaf.0, flat(texts(left_d::<B>(*final(y), r))))»
    {
        «let ghost o = *self; let ghost t0 = self.ts(); let ghost g = self.g@; let ghost cur = o.sought::<Q>(*q);
        proof { self.lm_ts(); t0.lm_root(g); self.lm_empty(); t0.lm_node(g, t0.rt()); t0.lm_same_self(); o.lm_used(&o); }»
        if self.is_empty() {
            panic!();
        }

        let mut splitted = SplittedLeaves::vx_default();
        let mut finder = Q::init(q);
        let mut path = NodePath::new();
        let mut node_idx = self.root;
        let mut child_arr_pos = 0;
        «let ghost mut fd = true; proof { assert(path@.push(Idx { arena: node_idx, arr: 0 }) =~= seq![Idx { arena: node_idx, arr: 0 }]); }»
        while let ArenaIndex::Internal(node_idx_inner) = node_idx
            «invariant
                *self == o, t0 == o.ts(), g == o.g@, t0.shape(g), t0.elems_ok(), g.lv.len() <= 16, t0.has(node_idx), path@.len() == g.lv.len() - 1 - hgt(g, node_idx),
                t0.path_ok(path@.push(Idx { arena: node_idx, arr: child_arr_pos })),
                node_idx is Internal ==> t0.n(node_idx.ix()) > 0 && t0.descent_ok(g, finder, *q, node_idx.ix()) && t0.descend(g, finder, *q, node_idx.ix(), fd).0.cursor == cur,
                node_idx is Leaf ==> cur.leaf.0 == node_idx.ix() && cur.offset == finder.q_elem(*q, t0.leaves[node_idx.ix()].elem).1,
            ensures node_idx is Leaf
            decreases hgt(g, node_idx)»
        {
            «let ghost m = node_idx_inner; let ghost p0 = path@;
            proof { self.lm_ts(); t0.lm_node(g, m); assert(t0.nodes[m] == ns(self.in_nodes@[m])); }»
            path.push(Idx {
                arena: ArenaIndex::Internal(node_idx_inner),
                arr: child_arr_pos,
            })
            .unwrap();
            let node = self.in_nodes.get(node_idx_inner).unwrap();
            let result = finder.find_node(q, &node.children);
            child_arr_pos = result.index as u8;
            node_idx = node.children[result.index].arena;
            «proof {
                t0.lm_child(g, m, result.index as int);
                t0.lm_path_push(path@, Idx { arena: node_idx, arr: child_arr_pos });
                fd = fd && result.found;
                if node_idx is Internal { t0.lm_node(g, node_idx.ix()); }
            }»
        }

        «let ghost l = node_idx.ix(); let ghost e0 = t0.leaves[l].elem;
        proof { t0.lm_elems_ok(l); t0.lm_root(g); t0.lm_slots(g, l); t0.lm_path_last(g, path@, Idx { arena: node_idx, arr: child_arr_pos }); }»
        let leaf = self.get_leaf_mut(node_idx);
        let (offset, found) = finder.confirm_elem(q, &leaf.elem);
        let ans = QueryResult {
            cursor: Cursor {
                leaf: node_idx.unwrap_leaf().into(),
                offset,
            },
            found,
        };
        let Some((diff, new_insert_1, new_insert_2)) = f(&mut leaf.elem, ans) else {
            «let ghost ye = leaf.elem; let ghost r0 = None::<(B::CacheDiff, Option<B::Elem>, Option<B::Elem>)>; let ghost ps = left_d::<B>(ye, r0);
            proof {
                assert(exists|y: &mut B::Elem| *y == e0 && #[trigger] call_ensures(f, (y, ans), r0) && *final(y) == ye);
                assert(lawful_d::<B>(e0, ye, r0));
                let t1 = t0.set_elem(l, ye);
                t0.lm_changed(g, o.root_cache, l, ye); t0.lm_set_elem(g, l, ye);
                assert(self.ts().nodes =~= t1.nodes); assert(self.ts().leaves =~= t1.leaves); assert(self.ts() == t1);
                self.lm_case1(&o, l, ps, (true, splitted));
            }»
            return (Some(ans.cursor), splitted);
        };
        «let ghost ye = leaf.elem; let ghost r0 = Some((diff, new_insert_1, new_insert_2)); let ghost ps = left_d::<B>(ye, r0); let ghost t1 = t0.set_elem(l, ye);
        proof {
            assert(exists|y: &mut B::Elem| *y == e0 && #[trigger] call_ensures(f, (y, ans), r0) && *final(y) == ye);
            assert(lawful_d::<B>(e0, ye, r0));
            t0.lm_set_elem(g, l, ye); t0.lm_slots(g, l); t0.lm_root(g);
            t0.lm_cx_any(ArenaIndex::Internal(t0.rt())); t0.lm_cx_one(g, ArenaIndex::Internal(t0.rt()), t0.leaves[l].parent, (g.lpos)(l) - (g.fst)(t0.leaves[l].parent));
            B::law_c0();
            assert(t1.ent(g, o.root_cache, node_idx) == B::ec(e0));
            assert(t1.kids(t1.rt()) =~= t0.kids(t0.rt()));
            t0.lm_path_nodes(t1, path@.push(Idx { arena: node_idx, arr: child_arr_pos }));
            assert(t1.path_ok(path@.push(Idx { arena: node_idx, arr: child_arr_pos })));
        }»

        if new_insert_2.is_some() {
            panic!()
        }

        // Delete
        if leaf.elem.can_remove() {
            // handle deletion
            // leaf node should be deleted
            assert!(new_insert_1.is_none());
            assert!(new_insert_2.is_none());
            self.leaf_nodes.remove(node_idx.unwrap()).unwrap();
            «let ghost w = *self;
            proof {
                B::law_removable(ye);
                let tw = TS { leaves: t1.leaves.remove(l), ..t1 };
                assert(w.ts().nodes =~= tw.nodes); assert(w.ts().leaves =~= tw.leaves); assert(w.ts() == tw);
            }»
            self.vx_ubs_del(path, child_arr_pos, node_idx, diff«, Ghost(t1)»);
            «proof {
                let tw = w.ts();
                assert(self.ts().same_but(t0, l, l, l)) by {
                    reveal(TS::same_but);
                    assert forall|x: RawArenaIndex| x != l implies #[trigger] self.ts().same_leaf(t0, x) by { self.ts().lm_same_leaf(tw, x); assert(t1.same_leaf(t0, x)); }
                }
                self.ts().lm_same_leaf(tw, l);
                self.lm_gone(&o, l);
                self.lm_case0(&o, l, ps, (false, splitted));
            }»
            return (None, splitted);
        }

        let mut new_cache_and_child = None;
        if let Some(new_insert_1) = new_insert_1 {
            let cache = B::get_elem_cache(&leaf.elem);
            let child = self.alloc_leaf_child(new_insert_1, path.last().unwrap().arena.unwrap());
            splitted.push(child.arena);
            new_cache_and_child = Some((cache, child));
        }

        «let ghost w = *self; let ghost nc = new_cache_and_child; let ghost x = (nc->0).1.arena.ix(); let ghost p = t0.leaves[l].parent;
        proof {
            assert(w.ts().nodes =~= t1.nodes);
            if nc is Some {
                let tw = TS { leaves: t1.leaves.insert(x, LeafNode { elem: new_insert_1->0, parent: p }), ..t1 };
                assert(w.ts().leaves =~= tw.leaves); assert(w.ts() == tw);
                assert(x != l);
                assert(w.loose(t1, l, x));
            } else { assert(w.ts().leaves =~= t1.leaves); assert(w.ts() == t1); }
        }»
        self.vx_ubs_ins(path, child_arr_pos, diff, new_cache_and_child«, Ghost(t1), Ghost(l)»);
        «proof {
            let tw = w.ts(); let two = false;
            self.ts().lm_same_leaf(tw, l);
            if nc is Some {
                assert(self.ts().same_but(t0, l, x, x)) by {
                    reveal(TS::same_but);
                    assert forall|y: RawArenaIndex| y != l && y != x implies #[trigger] self.ts().same_leaf(t0, y) by { self.ts().lm_same_leaf(tw, y); assert(t1.same_leaf(t0, y)); }
                }
                self.ts().lm_same_leaf(tw, x);
                self.lm_case3(&o, l, ps, (true, splitted), x, false, x);
            } else {
                self.lm_same_then(t1, t0, l, l, l);
                self.lm_case1(&o, l, ps, (true, splitted));
            }
        }»
        (Some(ans.cursor), splitted)
    }
//@ end
}
