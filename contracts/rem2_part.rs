// Sharing the children of two neighbours out anew. (C04, C05, C07, C08, C16)
impl<B: BTreeTrait> TS<B> {
    spec fn both(self, a: RawArenaIndex, b: RawArenaIndex) -> Seq<Child<B>> { self.nodes[a].ch + self.nodes[b].ch }
    // where child j of a and b goes
    spec fn to(a: RawArenaIndex, b: RawArenaIndex, s: int, j: int) -> (ArenaIndex, usize) {
        if j < s { (ArenaIndex::Internal(a), j as usize) } else { (ArenaIndex::Internal(b), (j - s) as usize) }
    }
    // what mp says about the children of a and b is right
    #[verifier::opaque]
    spec fn deal(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int, mp: Map<ArenaIndex, (ArenaIndex, usize)>) -> bool {
        forall|x: ArenaIndex| #[trigger] mp.contains_key(x) ==> {
            let j = plc(g, x) - (g.fst)(a);
            0 <= j < self.both(a, b).len() && self.both(a, b)[j].arena == x && mp[x] == Self::to(a, b, s, j)
        }
    }
    // and it has all of lo..hi
    #[verifier::opaque]
    spec fn dealt(self, a: RawArenaIndex, b: RawArenaIndex, mp: Map<ArenaIndex, (ArenaIndex, usize)>, lo: int, hi: int) -> bool {
        forall|j: int| lo <= j < hi ==> mp.contains_key((#[trigger] self.both(a, b)[j]).arena)
    }
    proof fn lm_both(self, g: G, a: RawArenaIndex, b: RawArenaIndex, j: int)
        requires self.lnk(g), self.beside(g, a, b), 0 <= j < self.n(a) + self.n(b)
        ensures ({
            let x = self.both(a, b)[j].arena;
            &&& self.has(x) && x != self.root && plc(g, x) == (g.fst)(a) + j && hgt(g, x) == (g.ht)(a) - 1
            &&& self.par(x) == (if j < self.n(a) { a } else { b })
            &&& x is Internal ==> self.nodes[x.ix()].slot == (if j < self.n(a) { j } else { j - self.n(a) }) && self.nodes[x.ix()].par == Some(ArenaIndex::Internal(self.par(x)))
            &&& hit(g, hgt(g, x), (g.fst)(a) + j, (g.fst)(a) + j + 1, x)
        })
    {
        self.lm_beside(g, a, b);
        if j < self.n(a) { self.lm_child(g, a, j); } else { self.lm_child(g, b, j - self.n(a)); }
        let x = self.both(a, b)[j].arena;
        self.lm_par(g, x);
        if x is Internal { self.lm_node(g, x.ix()); } else { self.lm_leaf(g, x.ix()); }
    }
    proof fn lm_deal0(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int)
        ensures self.deal(g, a, b, s, Map::empty()), forall|mp: Map<ArenaIndex, (ArenaIndex, usize)>, lo: int| #[trigger] self.dealt(a, b, mp, lo, lo)
    { reveal(TS::deal); reveal(TS::dealt); }
    proof fn lm_deal(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int, mp: Map<ArenaIndex, (ArenaIndex, usize)>, j: int)
        requires self.lnk(g), self.beside(g, a, b), self.deal(g, a, b, s, mp), 0 <= j < self.n(a) + self.n(b)
        ensures ({
            let m1 = mp.insert(self.both(a, b)[j].arena, Self::to(a, b, s, j));
            &&& self.deal(g, a, b, s, m1)
            &&& forall|lo: int, hi: int| #[trigger] self.dealt(a, b, mp, lo, hi) ==> self.dealt(a, b, m1, lo, if hi == j { j + 1 } else { hi })
        })
    { reveal(TS::deal); reveal(TS::dealt); self.lm_both(g, a, b, j); }
    // the parents and slots set as mp says
    spec fn rep(self, mp: Map<ArenaIndex, (ArenaIndex, usize)>) -> TS<B> {
        TS {
            nodes: self.nodes.map_entries(|y: RawArenaIndex, x: NodeS<B>| if mp.contains_key(ArenaIndex::Internal(y)) {
                NodeS { par: Some(mp[ArenaIndex::Internal(y)].0), slot: mp[ArenaIndex::Internal(y)].1 as u8, ch: x.ch }
            } else { x }),
            leaves: self.leaves.map_entries(|l: RawArenaIndex, x: LeafNode<B::Elem>| if mp.contains_key(ArenaIndex::Leaf(l)) { LeafNode { elem: x.elem, parent: mp[ArenaIndex::Leaf(l)].0.ix() } } else { x }),
            root: self.root,
        }
    }
    proof fn lm_rep_id(self)
        ensures self.rep(Map::empty()) == self
    { let t = self.rep(Map::empty()); assert(t.nodes =~= self.nodes); assert(t.leaves =~= self.leaves); }
    proof fn lm_rep_step(self, mp: Map<ArenaIndex, (ArenaIndex, usize)>, a: ArenaIndex, v: (ArenaIndex, usize))
        requires self.has(a)
        ensures ({
            let t = self.rep(mp);
            let u = self.rep(mp.insert(a, v));
            &&& t.has(a)
            &&& a is Internal ==> u == (TS { nodes: t.nodes.insert(a.ix(), NodeS { par: Some(v.0), slot: v.1 as u8, ch: t.nodes[a.ix()].ch }), ..t })
            &&& a is Leaf ==> u == (TS { leaves: t.leaves.insert(a.ix(), LeafNode { elem: t.leaves[a.ix()].elem, parent: v.0.ix() }), ..t })
        })
    {
        let t = self.rep(mp);
        let u = self.rep(mp.insert(a, v));
        if a is Internal {
            assert(u.nodes =~= t.nodes.insert(a.ix(), NodeS { par: Some(v.0), slot: v.1 as u8, ch: t.nodes[a.ix()].ch }));
            assert(u.leaves =~= t.leaves);
        } else {
            assert(u.leaves =~= t.leaves.insert(a.ix(), LeafNode { elem: t.leaves[a.ix()].elem, parent: v.0.ix() }));
            assert(u.nodes =~= t.nodes);
        }
    }
    // once mp has all that changes hands, that is the regrouping
    spec fn all_dealt(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int, mp: Map<ArenaIndex, (ArenaIndex, usize)>) -> bool {
        let na = self.n(a);
        &&& self.lnk(g) && self.beside(g, a, b) && 0 <= s <= MAX_CHILDREN_NUM && s <= na + self.n(b) && na + self.n(b) - s <= MAX_CHILDREN_NUM
        &&& self.deal(g, a, b, s, mp) && self.dealt(a, b, mp, if s < na { s } else { na }, na + self.n(b))
    }
    proof fn lm_rep_at(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int, mp: Map<ArenaIndex, (ArenaIndex, usize)>, x: ArenaIndex)
        requires self.all_dealt(g, a, b, s, mp)
        ensures ({
            let f = (g.fst)(a);
            let h = (g.ht)(a) - 1;
            let nn = self.n(a) + self.n(b);
            let j = plc(g, x) - f;
            &&& mp.contains_key(x) ==> 0 <= j < nn && hit(g, h, f, f + nn, x) && mp[x] == Self::to(a, b, s, j) && self.has(x) && hgt(g, x) == h
            &&& hit(g, h, f, f + nn, x) && !mp.contains_key(x) ==> 0 <= j < s && j < self.n(a) && self.has(x) && self.par(x) == a
                && (x is Internal ==> self.nodes[x.ix()].slot == j && self.nodes[x.ix()].par == Some(ArenaIndex::Internal(a)))
        })
    {
        let f = (g.fst)(a);
        let h = (g.ht)(a) - 1;
        let nn = self.n(a) + self.n(b);
        let j = plc(g, x) - f;
        self.lm_beside(g, a, b);
        reveal(TS::deal); reveal(TS::dealt);
        if mp.contains_key(x) { self.lm_both(g, a, b, j); }
        if hit(g, h, f, f + nn, x) {
            self.lm_both(g, a, b, j);
            let z = self.both(a, b)[j].arena;
            assert(z == aix(g, h, f + j));
            assert(z == x);
        }
    }
    proof fn lm_rep_move(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int, c1: B::Cache, c2: B::Cache, mp: Map<ArenaIndex, (ArenaIndex, usize)>)
        requires self.all_dealt(g, a, b, s, mp)
        ensures self.shared(a, b, s, c1, c2).rep(mp) == self.regroup(g, a, b, s, c1, c2),
            forall|x: ArenaIndex| #[trigger] mp.contains_key(x) ==> self.shared(a, b, s, c1, c2).has(x) && mp[x].0 is Internal
    {
        reveal(TS::regroup); reveal(TS::drop); reveal(TS::g_drop); reveal(TS::moved); reveal(TS::slotted); reveal(TS::can_slot);
        let t = self.shared(a, b, s, c1, c2);
        let u = t.rep(mp);
        let r = self.regroup(g, a, b, s, c1, c2);
        let f = (g.fst)(a);
        let h = (g.ht)(a) - 1;
        let nn = self.n(a) + self.n(b);
        self.lm_beside(g, a, b);
        assert(u.nodes.dom() =~= r.nodes.dom());
        assert(u.leaves.dom() =~= r.leaves.dom());
        assert forall|y: RawArenaIndex| u.nodes.contains_key(y) implies #[trigger] u.nodes[y] == r.nodes[y] by {
            let x = ArenaIndex::Internal(y);
            self.lm_rep_at(g, a, b, s, mp, x);
            assert(hit(g, h, f, f + nn, x) == (hit(g, h, f, f + s, x) || hit(g, h, f + s, f + nn, x)));
            assert(t.nodes[y].par == self.nodes[y].par && t.nodes[y].slot == self.nodes[y].slot);
        }
        assert forall|l: RawArenaIndex| u.leaves.contains_key(l) implies #[trigger] u.leaves[l] == r.leaves[l] by {
            let x = ArenaIndex::Leaf(l);
            self.lm_rep_at(g, a, b, s, mp, x);
            assert(hit(g, h, f, f + nn, x) == (hit(g, h, f, f + s, x) || hit(g, h, f + s, f + nn, x)));
        }
        assert forall|x: ArenaIndex| #[trigger] mp.contains_key(x) implies t.has(x) && mp[x].0 is Internal by { self.lm_rep_at(g, a, b, s, mp, x); }
        assert(u.nodes =~= r.nodes);
        assert(u.leaves =~= r.leaves);
    }
    proof fn lm_rep_drop(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int, c1: B::Cache, c2: B::Cache, mp: Map<ArenaIndex, (ArenaIndex, usize)>, d: RawArenaIndex)
        requires self.all_dealt(g, a, b, s, mp), s == 0 && d == a || s == self.n(a) + self.n(b) && d == b
        ensures ({
            let t = self.shared(a, b, s, c1, c2);
            let g1 = g_cut(g, b, (g.fst)(a) + s);
            let e = ArenaIndex::Internal(d);
            let p = self.par(e);
            &&& t.without(g1, e).can_slot(self.regroup(g, a, b, s, c1, c2).g_drop(g1, e), p, plc(g1, e) - (g1.fst)(p))
            &&& t.drop(g1, e) == t.without(g1, e).slotted(self.regroup(g, a, b, s, c1, c2).g_drop(g1, e), p, plc(g1, e) - (g1.fst)(p))
            &&& forall|x: ArenaIndex| #[trigger] mp.contains_key(x) ==> t.drop(g1, e).has(x) && mp[x].0 is Internal
            &&& t.drop(g1, e).rep(mp) == self.regroup(g, a, b, s, c1, c2).drop(g1, e)
        })
    {
        reveal(TS::regroup); reveal(TS::drop); reveal(TS::g_drop); reveal(TS::moved); reveal(TS::slotted); reveal(TS::can_slot);
        let t = self.shared(a, b, s, c1, c2);
        let r = self.regroup(g, a, b, s, c1, c2);
        let g1 = g_cut(g, b, (g.fst)(a) + s);
        let e = ArenaIndex::Internal(d);
        let p = self.par(e);
        let f = (g.fst)(a);
        let h = (g.ht)(a) - 1;
        let nn = self.n(a) + self.n(b);
        let k = plc(g1, e) - (g1.fst)(p);
        self.lm_beside(g, a, b);
        self.lm_regroup(g, a, b, s, c1, c2);
        self.lm_regroup_rest(g, a, b, s, c1, c2);
        r.lm_drop(g1, e);
        r.lm_drop_frame(g1, e);
        self.lm_rep_move(g, a, b, s, c1, c2, mp);
        // the two differ in what is at height h only
        assert forall|y: RawArenaIndex| self.nodes.contains_key(y) && (g.ht)(y) == h + 1 implies #[trigger] t.nodes[y] == r.nodes[y] by {
            self.lm_rep_at(g, a, b, s, mp, ArenaIndex::Internal(y));
        }
        let t0 = t.without(g1, e);
        let r0 = r.without(g1, e);
        let g2 = r.g_drop(g1, e);
        assert(t0.nodes[p].ch == r0.nodes[p].ch);
        assert(t0.can_slot(g2, p, k)) by {
            assert forall|j: int| k <= j < t0.n(p) && t0.n(p) > k && t0.nodes[p].ch[0].arena is Internal implies #[trigger] t0.slotting(g2, p, j) by {
                assert(r0.slotting(g2, p, j));
                let y = t0.nodes[p].ch[j].arena.ix();
                assert(t.nodes[y] == r.nodes[y]);
            }
        }
        let u = t.drop(g1, e).rep(mp);
        let v = r.drop(g1, e);
        assert(u.nodes.dom() =~= v.nodes.dom());
        assert(u.leaves.dom() =~= v.leaves.dom());
        assert forall|y: RawArenaIndex| u.nodes.contains_key(y) implies #[trigger] u.nodes[y] == v.nodes[y] by {
            self.lm_rep_at(g, a, b, s, mp, ArenaIndex::Internal(y));
            assert(t.rep(mp).nodes[y] == r.nodes[y]);
        }
        assert forall|x: ArenaIndex| #[trigger] mp.contains_key(x) implies t.drop(g1, e).has(x) by { self.lm_rep_at(g, a, b, s, mp, x); }
        assert(u.nodes =~= v.nodes);
        assert(u.leaves =~= v.leaves);
    }
}
impl<B: BTreeTrait> TS<B> {
    // the summaries of p before and after sharing out
    proof fn lm_shared_sum(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int)
        requires self.lnk(g), self.beside(g, a, b), self.cx(ArenaIndex::Internal(self.par(ArenaIndex::Internal(a)))), self.n(a) > 0, self.n(b) > 0, 0 <= s <= self.n(a) + self.n(b)
        ensures ({
            let p = self.par(ArenaIndex::Internal(a));
            let k = self.nodes[a].slot as int;
            let x = self.kids(a) + self.kids(b);
            &&& 0 < s < x.len() ==> B::sum(self.kids(p).update(k, B::sum(x.subrange(0, s))).update(k + 1, B::sum(x.subrange(s, x.len() as int)))) == B::sum(self.kids(p))
            &&& forall|c: B::Cache| B::sum(#[trigger] self.kids(p).update(k, B::sum(x)).update(k + 1, c).remove(k + 1)) == B::sum(self.kids(p))
            &&& forall|c: B::Cache| B::sum(#[trigger] self.kids(p).update(k, c).update(k + 1, B::sum(x)).remove(k)) == B::sum(self.kids(p))
        })
    {
        let p = self.par(ArenaIndex::Internal(a));
        let k = self.nodes[a].slot as int;
        let ka = self.kids(a);
        let kb = self.kids(b);
        let x = ka + kb;
        let kp = self.kids(p);
        self.lm_beside(g, a, b);
        self.lm_cx_at(g, p, k); self.lm_cx_at(g, p, k + 1);
        assert(kp[k] == B::sum(ka) && kp[k + 1] == B::sum(kb)) by { assert(self.nodes[p].ch[k].cache == self.kc(ArenaIndex::Internal(a))); assert(self.nodes[p].ch[k + 1].cache == self.kc(ArenaIndex::Internal(b))); }
        let l = kp.subrange(0, k);
        let r = kp.subrange(k + 2, kp.len() as int);
        assert(kp =~= l + seq![B::sum(ka), B::sum(kb)] + r);
        B::law_assoc(l, ka, kb, r);
        if 0 < s < x.len() {
            let x1 = x.subrange(0, s);
            let x2 = x.subrange(s, x.len() as int);
            assert(x1 + x2 =~= x);
            B::law_assoc(l, x1, x2, r);
            assert(kp.update(k, B::sum(x1)).update(k + 1, B::sum(x2)) =~= l + seq![B::sum(x1), B::sum(x2)] + r);
        }
        assert forall|c: B::Cache| B::sum(#[trigger] kp.update(k, B::sum(x)).update(k + 1, c).remove(k + 1)) == B::sum(kp) by {
            assert(kp.update(k, B::sum(x)).update(k + 1, c).remove(k + 1) =~= l + seq![B::sum(x)] + r);
        }
        assert forall|c: B::Cache| B::sum(#[trigger] kp.update(k, c).update(k + 1, B::sum(x)).remove(k)) == B::sum(kp) by {
            assert(kp.update(k, c).update(k + 1, B::sum(x)).remove(k) =~= l + seq![B::sum(x)] + r);
        }
    }
    // nothing happened to p and what is not below it, but that p may have other children
    #[verifier::opaque]
    spec fn above(self, g1: G, o: TS<B>, g: G, p: RawArenaIndex) -> bool {
        forall|y: RawArenaIndex| o.nodes.contains_key(y) && (g.ht)(y) >= (g.ht)(p) ==> #[trigger] self.abv1(g1, o, g, p, y)
    }
    spec fn abv1(self, g1: G, o: TS<B>, g: G, p: RawArenaIndex, y: RawArenaIndex) -> bool {
        self.nodes.contains_key(y) && self.nodes[y].par == o.nodes[y].par && self.nodes[y].slot == o.nodes[y].slot && (y != p ==> self.nodes[y].ch == o.nodes[y].ch) && (g1.ht)(y) == (g.ht)(y)
    }
    proof fn lm_above(self, g1: G, o: TS<B>, g: G, p: RawArenaIndex, y: RawArenaIndex)
        requires self.above(g1, o, g, p), o.nodes.contains_key(y), (g.ht)(y) >= (g.ht)(p)
        ensures self.abv1(g1, o, g, p, y)
    { reveal(TS::above); }
    proof fn lm_above_self(self, g: G, p: RawArenaIndex)
        ensures self.above(g, self, g, p)
    { reveal(TS::above); }
    proof fn lm_above_trans(self, g2: G, u: TS<B>, g1: G, o: TS<B>, g: G, p: RawArenaIndex)
        requires self.above(g2, u, g1, p), u.above(g1, o, g, p), (g1.ht)(p) == (g.ht)(p)
        ensures self.above(g2, o, g, p)
    {
        reveal(TS::above);
        assert forall|y: RawArenaIndex| o.nodes.contains_key(y) && (g.ht)(y) >= (g.ht)(p) implies #[trigger] self.abv1(g2, o, g, p, y) by { assert(u.abv1(g1, o, g, p, y)); assert(self.abv1(g2, u, g1, p, y)); }
    }
    // the nodes under height h are where they were
    #[verifier::opaque]
    spec fn below(self, g1: G, o: TS<B>, g: G, h: int) -> bool {
        g1.ht == g.ht && forall|y: RawArenaIndex| o.nodes.contains_key(y) && (g.ht)(y) < h ==> #[trigger] self.nodes.contains_key(y)
    }
    // what is left to do is at p, and that may be nothing
    spec fn healed(self, g1: G, o: TS<B>, g: G, p: RawArenaIndex) -> bool {
        &&& self.lnk(g1) && self.sized_but(g1, p) && (o.elems_ok() ==> self.elems_ok()) && self.cx(ArenaIndex::Internal(p)) && self.same_leaves(o)
        &&& self.nodes.contains_key(p) && self.root == o.root && g1.lv[0] == g.lv[0] && g1.lpos == g.lpos && g1.lv.len() == g.lv.len() && (g1.ht)(p) == (g.ht)(p)
        &&& B::sum(self.kids(p)) == B::sum(o.kids(p)) && self.above(g1, o, g, p) && self.n(p) + 1 >= o.n(p) && (B::exact0() || self.n(p) > 0)
    }
    // where all was well before, all is well but for p
    proof fn lm_healed(self, g1: G, o: TS<B>, g: G, p: RawArenaIndex, rc: B::Cache)
        requires self.healed(g1, o, g, p), o.lnk(g), o.nodes.contains_key(p)
        ensures o.caches_ok() ==> self.caches_ok(), o.root_cache_ok(rc) && (o.n(p) > 0 || B::exact0()) ==> self.root_cache_ok(rc),
            p != o.rt() ==> self.par(ArenaIndex::Internal(p)) == o.par(ArenaIndex::Internal(p)) && self.nodes[o.par(ArenaIndex::Internal(p))].ch == o.nodes[o.par(ArenaIndex::Internal(p))].ch
    {
        let u = ArenaIndex::Internal(p);
        self.lm_root(g1); o.lm_root(g); o.lm_node(g, p);
        self.lm_above(g1, o, g, p, p);
        if p != o.rt() {
            o.lm_par(g, u); o.lm_node(g, o.par(u)); self.lm_above(g1, o, g, p, o.par(u)); self.lm_above(g1, o, g, p, o.rt());
        }
        if o.caches_ok() { self.lm_recached2(g1, o, g, p); }
    }
    proof fn lm_cx_at(self, g: G, p: RawArenaIndex, k: int)
        requires self.lnk(g), self.cx(ArenaIndex::Internal(p)), self.nodes.contains_key(p), 0 <= k < self.n(p)
        ensures B::cok(self.kids(p)[k]), self.kids(p)[k] == self.kc(self.nodes[p].ch[k].arena)
    {
        reveal(TS::cx); assert(self.cx1(ArenaIndex::Internal(p), p)); self.lm_child(g, p, k);
        let c = self.nodes[p].ch[k];
        assert(c.arena != ArenaIndex::Internal(p)) by { self.lm_node(g, p); }
        assert(self.kids(p)[k] == c.cache);
    }
    proof fn lm_regroup_above(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int, c1: B::Cache, c2: B::Cache)
        requires self.lnk(g), self.beside(g, a, b), 0 <= s <= MAX_CHILDREN_NUM, s <= self.n(a) + self.n(b), self.n(a) + self.n(b) - s <= MAX_CHILDREN_NUM
        ensures self.regroup(g, a, b, s, c1, c2).above(g_cut(g, b, (g.fst)(a) + s), self, g, self.par(ArenaIndex::Internal(a)))
    {
        reveal(TS::above); reveal(TS::regroup); reveal(TS::moved);
        self.lm_beside(g, a, b);
        let p = self.par(ArenaIndex::Internal(a));
        let t = self.regroup(g, a, b, s, c1, c2);
        assert forall|y: RawArenaIndex| self.nodes.contains_key(y) && (g.ht)(y) >= (g.ht)(p) implies #[trigger] t.abv1(g_cut(g, b, (g.fst)(a) + s), self, g, p, y) by {
            assert(self.shared(a, b, s, c1, c2).nodes[y] == if y == p { NodeS { ch: self.shared(a, b, s, c1, c2).nodes[p].ch, ..self.nodes[p] } } else { self.nodes[y] });
        }
    }
    proof fn lm_drop_above(self, g: G, e: ArenaIndex)
        requires self.lnk(g), self.has(e), e != self.root
        ensures self.drop(g, e).above(self.g_drop(g, e), self, g, self.par(e))
    {
        reveal(TS::above); reveal(TS::drop); reveal(TS::g_drop); reveal(TS::slotted); reveal(TS::moved);
        let p = self.par(e);
        self.lm_par(g, e);
        let t = self.drop(g, e);
        assert forall|y: RawArenaIndex| self.nodes.contains_key(y) && (g.ht)(y) >= (g.ht)(p) implies #[trigger] t.abv1(self.g_drop(g, e), self, g, p, y) by {
            assert(self.without(g, e).nodes[y] == if y == p { NodeS { ch: self.without(g, e).nodes[p].ch, ..self.nodes[p] } } else { self.nodes[y] });
        }
    }
    proof fn lm_moved_ok(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int, c1: B::Cache, c2: B::Cache)
        requires self.lnk(g), self.beside(g, a, b), self.cx(ArenaIndex::Internal(self.par(ArenaIndex::Internal(a)))), self.sized(g), 0 < s <= MAX_CHILDREN_NUM, s < self.n(a) + self.n(b), self.n(a) + self.n(b) - s <= MAX_CHILDREN_NUM,
            c1 == B::sum((self.kids(a) + self.kids(b)).subrange(0, s)), c2 == B::sum((self.kids(a) + self.kids(b)).subrange(s, self.n(a) + self.n(b))),
        ensures ({
            let p = self.par(ArenaIndex::Internal(a));
            let t = self.regroup(g, a, b, s, c1, c2);
            let g1 = g_cut(g, b, (g.fst)(a) + s);
            &&& t.healed(g1, self, g, p) && t.n(p) == self.n(p) && t.n(p) > 0 && t.below(g1, self, g, (g.ht)(a))
            &&& self.not_full() && s < MAX_CHILDREN_NUM && self.n(a) + self.n(b) - s < MAX_CHILDREN_NUM ==> t.not_full()
        })
    {
        let p = self.par(ArenaIndex::Internal(a));
        let u = ArenaIndex::Internal(p);
        let t = self.regroup(g, a, b, s, c1, c2);
        let g1 = g_cut(g, b, (g.fst)(a) + s);
        self.lm_root(g);
        self.lm_beside(g, a, b);
        self.lm_regroup(g, a, b, s, c1, c2);
        self.lm_regroup_rest(g, a, b, s, c1, c2);
        self.lm_sized_any(g, a);
        t.lm_sized_any(g1, p);
        self.lm_node(g, a); self.lm_node(g, b);
        self.lm_shared_sum(g, a, b, s);
        self.lm_cx_cok(u, a); self.lm_cx_cok(u, b);
        let x = self.kids(a) + self.kids(b);
        B::law_cok_sum(x.subrange(0, s)); B::law_cok_sum(x.subrange(s, x.len() as int));
        self.lm_regroup_cx(g, a, b, s, c1, c2, u);
        t.lm_cxx_same(u);
        self.lm_regroup_above(g, a, b, s, c1, c2);
        reveal(TS::below);
    }
    proof fn lm_cx_cok(self, a: ArenaIndex, m: RawArenaIndex)
        requires self.cx(a), self.nodes.contains_key(m)
        ensures forall|k: int| 0 <= k < self.n(m) ==> B::cok((#[trigger] self.nodes[m].ch[k]).cache), forall|k: int| 0 <= k < self.n(m) ==> B::cok(#[trigger] self.kids(m)[k])
    { reveal(TS::cx); assert(self.cx1(a, m)); assert forall|k: int| 0 <= k < self.n(m) implies B::cok(#[trigger] self.kids(m)[k]) by { assert(self.kids(m)[k] == self.nodes[m].ch[k].cache); } }
    proof fn lm_merged_ok(self, g: G, a: RawArenaIndex, b: RawArenaIndex, s: int, c1: B::Cache, c2: B::Cache, d: RawArenaIndex)
        requires self.lnk(g), self.beside(g, a, b), self.cx(ArenaIndex::Internal(self.par(ArenaIndex::Internal(a)))), self.sized(g), self.n(a) + self.n(b) < MAX_CHILDREN_NUM,
            s == 0 && d == a && c2 == B::sum(self.kids(a) + self.kids(b)) && B::cok(c1)
            || s == self.n(a) + self.n(b) && d == b && c1 == B::sum(self.kids(a) + self.kids(b)) && B::cok(c2),
        ensures ({
            let p = self.par(ArenaIndex::Internal(a));
            let t = self.regroup(g, a, b, s, c1, c2);
            let g1 = g_cut(g, b, (g.fst)(a) + s);
            let e = ArenaIndex::Internal(d);
            let t2 = t.drop(g1, e);
            let g2 = t.g_drop(g1, e);
            t2.healed(g2, self, g, p) && t2.n(p) == self.n(p) - 1 && t2.n(p) > 0 && (self.not_full() ==> t2.not_full()) && t2.below(g2, self, g, (g.ht)(a))
        })
    {
        let p = self.par(ArenaIndex::Internal(a));
        let u = ArenaIndex::Internal(p);
        let t = self.regroup(g, a, b, s, c1, c2);
        let g1 = g_cut(g, b, (g.fst)(a) + s);
        let e = ArenaIndex::Internal(d);
        let t2 = t.drop(g1, e);
        let g2 = t.g_drop(g1, e);
        let k = self.nodes[a].slot as int;
        self.lm_root(g);
        self.lm_beside(g, a, b);
        self.lm_regroup(g, a, b, s, c1, c2);
        self.lm_regroup_rest(g, a, b, s, c1, c2);
        self.lm_sized_any(g, a);
        self.lm_node(g, a); self.lm_node(g, b);
        self.lm_shared_sum(g, a, b, s);
        self.lm_cx_cok(u, a); self.lm_cx_cok(u, b);
        let x = self.kids(a) + self.kids(b);
        assert(x.subrange(0, x.len() as int) =~= x);
        B::law_cok_sum(x);
        self.lm_regroup_cx(g, a, b, s, c1, c2, e);
        t.lm_drop(g1, e);
        t.lm_drop_rest(g1, e);
        t.lm_drop_cx(g1, e);
        self.lm_regroup_above(g, a, b, s, c1, c2);
        t.lm_drop_above(g1, e);
        t2.lm_above_trans(g2, t, g1, self, g, p);
        t2.lm_same_trans(t, self);
        reveal(TS::below);
    }
    // a childless node taken out
    proof fn lm_bare_ok(self, g: G, m: RawArenaIndex)
        requires self.lnk(g), self.nodes.contains_key(m), m != self.rt(), self.n(m) == 0, self.cx(ArenaIndex::Internal(self.par(ArenaIndex::Internal(m)))), self.sized_but(g, m), B::exact0()
        ensures ({
            let e = ArenaIndex::Internal(m);
            let p = self.par(e);
            self.drop(g, e) == self.without(g, e).slotted(self.g_drop(g, e), p, plc(g, e) - (g.fst)(p)) && self.drop(g, e).healed(self.g_drop(g, e), self, g, p) && (self.not_full() ==> self.drop(g, e).not_full()) && self.drop(g, e).below(self.g_drop(g, e), self, g, (g.ht)(m))
        })
    {
        reveal(TS::regroup); reveal(TS::drop); reveal(TS::g_drop); reveal(TS::moved); reveal(TS::slotted); reveal(TS::can_slot);
        let e = ArenaIndex::Internal(m);
        let p = self.par(e);
        let u = ArenaIndex::Internal(p);
        let t = self.drop(g, e);
        let g1 = self.g_drop(g, e);
        self.lm_root(g);
        self.lm_par(g, e);
        let k = plc(g, e) - (g.fst)(p);
        self.lm_drop(g, e);
        self.lm_drop_rest(g, e);
        self.lm_cxx(e, u);
        self.lm_drop_cx(g, e);
        assert(self.kids(p)[k] == B::c0()) by {
            self.lm_cx_at(g, p, k);
            assert(self.kids(m) =~= Seq::empty());
            B::law_c0();
        }
        B::law_neutral(self.kids(p), k);
        self.lm_drop_above(g, e);
        reveal(TS::below); self.lm_node(g, m);
    }
}
//@ code src/lib.rs "struct LackInfo" tags=
struct LackInfo {
    parent_lack: Option<ArenaIndex>,
}
//@ end
impl<B: BTreeTrait> BTree<B> {
    // the tree holds what it held, but there may be something to do at a
    spec fn ails(&self, o: &Self, a: ArenaIndex, m: RawArenaIndex) -> bool {
        &&& a is Internal && self.mend(a.ix()) && (self.g@.ht)(a.ix()) == (o.g@.ht)(m) + 1 && self.g@.lv.len() == o.g@.lv.len()
        &&& self.ts().same_leaves(o.ts()) && self.order() == o.order() && self.g@.lpos == o.g@.lpos && self.uses(o) && self.root == o.root
    }
    // node m is well, and its parent may have lost a child over it
    spec fn patched(&self, o: &Self, m: RawArenaIndex) -> bool {
        let p = o.ts().par(ArenaIndex::Internal(m));
        &&& self.ts().healed(self.g@, o.ts(), o.g@, p) && self.ts().not_full() && self.root_cache == o.root_cache && self.uses(o) && self.root == o.root
    }
    proof fn lm_patched(&self, o: &Self, m: RawArenaIndex)
        requires self.patched(o, m), o.mends(m), m != o.ts().rt(), o.ts().caches_ok(), o.ts().root_cache_ok(o.root_cache)
        ensures ({
            let p = o.ts().par(ArenaIndex::Internal(m));
            self.ails(o, ArenaIndex::Internal(p), m) && (self.ts().n(p) > 0 ==> self.settled(o))
        })
    {
        let p = o.ts().par(ArenaIndex::Internal(m));
        o.ts().lm_par(o.g@, ArenaIndex::Internal(m)); o.ts().lm_node(o.g@, p);
        self.ts().lm_healed(self.g@, o.ts(), o.g@, p, o.root_cache);
        if self.ts().n(p) > 0 { self.ts().lm_sized(self.g@, p); }
    }
    proof fn lm_patched_self(&self, o: &Self, m: RawArenaIndex)
        requires o.mends(m), m != o.ts().rt(), o.ts().n(m) > 0, self.ts() == o.ts(), self.g == o.g, self.root_cache == o.root_cache, self.uses(o), self.root == o.root
        ensures self.patched(o, m)
    {
        let p = o.ts().par(ArenaIndex::Internal(m));
        o.ts().lm_par(o.g@, ArenaIndex::Internal(m)); o.ts().lm_node(o.g@, p);
        o.ts().lm_sized(o.g@, m); o.ts().lm_sized_any(o.g@, p); o.ts().lm_above_self(o.g@, p); o.ts().lm_same_self();
    }
    // all is well with node m, all was well but for the entries above
    proof fn lm_mends(&self, m: RawArenaIndex)
        requires self.mend(m)
        ensures self.mends(m)
    { self.ts().lm_cx_any(ArenaIndex::Internal(self.ts().par(ArenaIndex::Internal(m)))); }
//@ code src/lib.rs "BTree::handle_lack_single_layer" tags=C04,C08,C05,C16,C02
    fn handle_lack_single_layer(&mut self, node_idx: ArenaIndex) -> «(r:» LackInfo«)
        requires node_idx is Internal, old(self).mends(node_idx.ix()), old(self).ts().has(node_idx)
        ensures /*C12*/ node_idx != old(self).root ==> final(self).patched(old(self), node_idx.ix()),
            node_idx != old(self).root ==> final(self).ts().below(final(self).g@, old(self).ts(), old(self).g@, (old(self).g@.ht)(node_idx.ix())),
            /*C09*/ node_idx != old(self).root && old(self).ts().n(node_idx.ix()) > 0 ==> final(self).ts().n(old(self).ts().par(node_idx)) > 0,
        node_idx == old(self).root || old(self).ts().caches_ok() && old(self).ts().root_cache_ok(old(self).root_cache) ==> match r.parent_lack {
            None => /*C04 C05 C08*/ final(self).settled(old(self)),
            Some(a) => /*C04 C05 C08*/ final(self).ails(old(self), a, node_idx.ix()),
        }, /*C02*/ old(self).ts().fat_but(old(self).g@, node_idx.ix()) ==> match r.parent_lack {
            None => final(self).ts().fat(final(self).g@),
            Some(a) => final(self).ts().fat_but(final(self).g@, a.ix()),
        }»
    {
        «let ghost t0 = self.ts(); let ghost g = self.g@; let ghost m = node_idx.ix(); let ghost rc = self.root_cache; let ghost u0 = *self; let ghost fat = t0.fat_but(g, m);
        proof { t0.lm_root(g); t0.lm_node(g, m); t0.lm_same_self(); if fat { t0.lm_fat_but(g, m, m); } assert(t0.nodes[m] == ns(self.in_nodes@[m])); }»
        if self.root == node_idx {
            self.try_reduce_levels();
            return LackInfo { parent_lack: None };
        }
        «let ghost p = t0.par(node_idx);
        proof { t0.lm_par(g, node_idx); t0.lm_node(g, p); assert(t0.nodes[p] == ns(self.in_nodes@[p])); if fat { t0.lm_fat_but(g, m, p); } }»
        let node = self.get_internal(node_idx);
        let parent_idx = node.parent.unwrap();
        let parent = self.get_internal(parent_idx);
        assert!(parent.children[node.parent_slot as usize].arena == node_idx);
        if node.children.is_empty() {
            let slot = node.parent_slot as usize;
            «let ghost g1 = t0.g_drop(g, node_idx); let ghost t1 = t0.without(g, node_idx);
            proof { t0.lm_drop(g, node_idx); t0.lm_drop_rest(g, node_idx); t0.lm_bare_ok(g, m); }»
            self.get_internal_mut(parent_idx).children.remove(slot);
            self.in_nodes.remove(node_idx.unwrap_internal());
            «proof { self.g = Ghost(g1); assert(self.ts().nodes =~= t1.nodes); assert(self.ts() == t1); }»
            self.update_children_parent_slot_from(parent_idx, slot);
            «proof { assert(self.patched(&u0, m)); if t0.caches_ok() && t0.root_cache_ok(rc) { self.lm_patched(&u0, m); } }»
            return LackInfo {
                parent_lack: Some(parent_idx),
            };
        }
        «proof { t0.lm_sized(g, m); t0.lm_sized_any(g, p); }»
        let ans = match self.pair_neighbor(node_idx) {
            Some((a_idx, b_idx)) => {
                «let ghost ia = a_idx.arena.ix(); let ghost ib = b_idx.arena.ix(); let ghost all = t0.both(ia, ib);
                let ghost na = t0.n(ia); let ghost nb = t0.n(ib); let ghost f = (g.fst)(ia); let ghost k = t0.nodes[ia].slot as int;
                let ghost mut s: int = 0; let ghost mut c1: B::Cache = arbitrary(); let ghost mut c2: B::Cache = arbitrary();
                let ghost mut t3 = t0;
                let ghost mut moving = false; let ghost mut t4 = t0; let ghost mut g4 = g;
                proof {
                    t0.lm_beside(g, ia, ib); t0.lm_node(g, ia); t0.lm_node(g, ib); t0.lm_size(g, ia); t0.lm_size(g, ib);
                    t0.lm_cx_cok(ArenaIndex::Internal(p), ia); t0.lm_cx_cok(ArenaIndex::Internal(p), ib); t0.lm_cx_cok(ArenaIndex::Internal(p), p);
                    assert(t0.nodes[ia] == ns(self.in_nodes@[ia])); assert(t0.nodes[ib] == ns(self.in_nodes@[ib]));
                    assert(na < 12 && nb < 12) by { reveal(TS::not_full); assert(t0.roomy(ia)); assert(t0.roomy(ib)); }
                    assert(t0.kids(ia) + t0.kids(ib) =~= cch(all));
                    assert forall|j: int| 0 <= j < all.len() implies B::cok((#[trigger] all[j]).cache) by { if j < na { assert(all[j] == t0.nodes[ia].ch[j]); } else { assert(all[j] == t0.nodes[ib].ch[j - na]); } }
                }»
                let parent = self.get_internal_mut(parent_idx);
                let mut a_cache = vx_take(&mut parent.children[a_idx.arr as usize].cache);
                let mut b_cache = vx_take(&mut parent.children[b_idx.arr as usize].cache);
                let mut re_parent = FxHashMap::vx_new();
                let (a, b) = self
                    .in_nodes
                    .get2_mut(a_idx.arena.unwrap_internal(), b_idx.arena.unwrap_internal());
                let a = a.unwrap();
                let b = b.unwrap();
                let ans = if a.len() + b.len() >= MAX_CHILDREN_NUM {
                    if a.len() < b.len() {
                        let move_len = (b.len() - a.len()) / 2;
                        «proof { s = na + move_len; assert(2 <= s <= 12 && s + 2 <= na + nb); t0.lm_deal0(g, ia, ib, s); assert(a.children@ =~= all.subrange(0, na)); }»
                        for vx_k in 0..move_len
                            «invariant t0.lnk(g), t0.beside(g, ia, ib), all == t0.both(ia, ib), a_idx.arena == ArenaIndex::Internal(ia), b_idx.arena == ArenaIndex::Internal(ib), na == t0.n(ia), nb == t0.n(ib), all.len() == na + nb, na < 12, nb < 12, t0.deal(g, ia, ib, s, re_parent@),
                                s == na + move_len, move_len <= nb, s < 12, a.children@ == all.subrange(0, na + vx_k), b.children@ == t0.nodes[ib].ch, t0.dealt(ia, ib, re_parent@, na, na + vx_k),»
                        {
                            «proof { t0.lm_deal(g, ia, ib, s, re_parent@, na + vx_k); }»
                            let child = &b.children[vx_k];
                            re_parent.insert(child.arena, (a_idx.arena, a.children.len()));
                            a.children.push(vx_clone(child)).unwrap();
                            «proof { assert(a.children@ =~= all.subrange(0, na + vx_k + 1)); }»
                        }
                        delete_range(&mut b.children, ..move_len);
                        «proof { assert(b.children@ =~= all.subrange(s, na + nb)); }»
                        for i in 0..b.children.len()
                            «invariant t0.lnk(g), t0.beside(g, ia, ib), all == t0.both(ia, ib), a_idx.arena == ArenaIndex::Internal(ia), b_idx.arena == ArenaIndex::Internal(ib), na == t0.n(ia), nb == t0.n(ib), all.len() == na + nb, na < 12, nb < 12, t0.deal(g, ia, ib, s, re_parent@),
                                na <= s, s < na + nb, b.children@ == all.subrange(s, na + nb), t0.dealt(ia, ib, re_parent@, na, s + i),»
                        {
                            «proof { t0.lm_deal(g, ia, ib, s, re_parent@, s + i); }»
                            let child = &b.children[i];
                            re_parent.insert(child.arena, (b_idx.arena, i));
                        }
                    } else {
                        let move_len = (a.len() - b.len()) / 2;
                        «proof { s = na - move_len; assert(2 <= s <= 12 && s + 2 <= na + nb); t0.lm_deal0(g, ia, ib, s); }»
                        for i in 0..b.children.len()
                            «invariant t0.lnk(g), t0.beside(g, ia, ib), all == t0.both(ia, ib), a_idx.arena == ArenaIndex::Internal(ia), b_idx.arena == ArenaIndex::Internal(ib), na == t0.n(ia), nb == t0.n(ib), all.len() == na + nb, na < 12, nb < 12, t0.deal(g, ia, ib, s, re_parent@),
                                s == na - move_len, move_len <= na, b.children@ == t0.nodes[ib].ch,»
                        {
                            «proof { t0.lm_deal(g, ia, ib, s, re_parent@, na + i); }»
                            let child = &b.children[i];
                            re_parent.insert(child.arena, (b_idx.arena, i + move_len));
                        }
                        let mut b_children =
                            vx_from_slice(&a.children[a.children.len() - move_len..]);
                        «proof { assert(b_children@ =~= all.subrange(s, na)); }»
                        let vx_t = vx_take_vec(&mut b.children);
                        for vx_k in 0..vx_t.len()
                            «invariant all == t0.both(ia, ib), na == t0.n(ia), nb == t0.n(ib), 0 < s <= na, na - s + nb < 12, b_children@ == all.subrange(s, na + vx_k), vx_t@ == t0.nodes[ib].ch,»
                        {
                            let child = vx_clone(&vx_t[vx_k]);
                            b_children.push(child).unwrap();
                            «proof { assert(b_children@ =~= all.subrange(s, na + vx_k + 1)); }»
                        }
                        b.children = b_children;
                        for i in 0..b.children.len()
                            «invariant t0.lnk(g), t0.beside(g, ia, ib), all == t0.both(ia, ib), a_idx.arena == ArenaIndex::Internal(ia), b_idx.arena == ArenaIndex::Internal(ib), na == t0.n(ia), nb == t0.n(ib), all.len() == na + nb, na < 12, nb < 12, t0.deal(g, ia, ib, s, re_parent@),
                                0 < s <= na, b.children@ == all.subrange(s, na + nb), t0.dealt(ia, ib, re_parent@, s, s + i),»
                        {
                            «proof { t0.lm_deal(g, ia, ib, s, re_parent@, s + i); }»
                            let child = &b.children[i];
                            re_parent.insert(child.arena, (b_idx.arena, i));
                        }
                        let len = a.children.len();
                        delete_range(&mut a.children, len - move_len..);
                        «proof { assert(a.children@ =~= all.subrange(0, s)); }»
                    }
                    «proof {
                        assert(cch(all.subrange(0, s)) =~= (t0.kids(ia) + t0.kids(ib)).subrange(0, s));
                        assert(cch(all.subrange(s, na + nb)) =~= (t0.kids(ia) + t0.kids(ib)).subrange(s, na + nb));
                    }»
                    a.calc_cache(&mut a_cache, None);
                    b.calc_cache(&mut b_cache, None);
                    let parent = self.get_internal_mut(parent_idx);
                    parent.children[a_idx.arr as usize].cache = a_cache;
                    parent.children[b_idx.arr as usize].cache = b_cache;
                    «proof { c1 = a_cache; c2 = b_cache; moving = true; }»
                    LackInfo {
                        parent_lack: if parent.is_lack() {
                            Some(parent_idx)
                        } else {
                            None
                        },
                    }
                } else {
                    let is_parent_lack = if node_idx == a_idx.arena {
                        «proof { s = na + nb; t0.lm_deal0(g, ia, ib, s); assert(a.children@ =~= all.subrange(0, na)); }»
                        for i in 0..b.children.len()
                            «invariant t0.lnk(g), t0.beside(g, ia, ib), all == t0.both(ia, ib), a_idx.arena == ArenaIndex::Internal(ia), b_idx.arena == ArenaIndex::Internal(ib), na == t0.n(ia), nb == t0.n(ib), all.len() == na + nb, na < 12, nb < 12, t0.deal(g, ia, ib, s, re_parent@),
                                s == na + nb, b.children@ == t0.nodes[ib].ch, a.children@ == all.subrange(0, na), t0.dealt(ia, ib, re_parent@, na, na + i),»
                        {
                            «proof { t0.lm_deal(g, ia, ib, s, re_parent@, na + i); }»
                            let child = &b.children[i];
                            re_parent.insert(child.arena, (a_idx.arena, a.children.len() + i));
                        }
                        let vx_t = vx_take_vec(&mut b.children);
                        for vx_k in 0..vx_t.len()
                            «invariant all == t0.both(ia, ib), na == t0.n(ia), nb == t0.n(ib), na + nb < 12, a.children@ == all.subrange(0, na + vx_k), vx_t@ == t0.nodes[ib].ch,»
                        {
                            let child = vx_clone(&vx_t[vx_k]);
                            a.children.push(child).unwrap();
                            «proof { assert(a.children@ =~= all.subrange(0, na + vx_k + 1)); }»
                        }
                        «proof { assert(a.children@ =~= all); }»
                        a.calc_cache(&mut a_cache, None);
                        let parent = self.get_internal_mut(parent_idx);
                        parent.children[a_idx.arr as usize].cache = a_cache;
                        parent.children.remove(b_idx.arr as usize);
                        let is_lack = parent.is_lack();
                        «let ghost g1 = g_cut(g, ib, f + s); let ghost e = b_idx.arena;
                        proof {
                            c1 = a_cache; c2 = t0.nodes[p].ch[k + 1].cache; assert(B::cok(c2));
                            let sh = t0.shared(ia, ib, s, c1, c2);
                            t3 = sh.drop(g1, e);
                            g4 = t0.regroup(g, ia, ib, s, c1, c2).g_drop(g1, e);
                            t4 = t0.regroup(g, ia, ib, s, c1, c2).drop(g1, e);
                            t0.lm_rep_drop(g, ia, ib, s, c1, c2, re_parent@, ib);
                            t0.lm_merged_ok(g, ia, ib, s, c1, c2, ib); if fat { t0.lm_merged_fat(g, ia, ib, s, c1, c2, ib, m); }
                            let u1 = self.ts();
                            assert(u1.nodes[ib] == ns(self.in_nodes@[ib]));
                            assert(u1.nodes[p].ch =~= sh.without(g1, e).nodes[p].ch);
                            assert(u1.nodes[ia].ch =~= sh.nodes[ia].ch);
                            assert(u1.nodes[ib].ch =~= Seq::empty());
                            u1.lm_shut_one(ib);
                        } let ghost u1 = self.ts();»
                        self.purge(b_idx.arena«, Ghost(only(ib))»);
                        «proof { u1.lm_sweep_one(self.ts(), ib);
                            self.g = Ghost(g4);
                            let t2 = t0.shared(ia, ib, s, c1, c2).without(g1, e);
                            assert(self.ts().nodes =~= t2.nodes);
                            assert(self.ts() == t2);
                        }»
                        self.update_children_parent_slot_from(parent_idx, b_idx.arr as usize);
                        is_lack
                    } else {
                        «proof { s = 0; t0.lm_deal0(g, ia, ib, s); assert(a.children@ =~= all.subrange(0, na)); }»
                        for i in 0..a.children.len()
                            «invariant t0.lnk(g), t0.beside(g, ia, ib), all == t0.both(ia, ib), a_idx.arena == ArenaIndex::Internal(ia), b_idx.arena == ArenaIndex::Internal(ib), na == t0.n(ia), nb == t0.n(ib), all.len() == na + nb, na < 12, nb < 12, t0.deal(g, ia, ib, s, re_parent@),
                                s == 0, a.children@ == all.subrange(0, na), t0.dealt(ia, ib, re_parent@, 0, i as int),»
                        {
                            «proof { t0.lm_deal(g, ia, ib, s, re_parent@, i as int); }»
                            let child = &a.children[i];
                            re_parent.insert(child.arena, (b_idx.arena, i));
                        }
                        for i in 0..b.children.len()
                            «invariant t0.lnk(g), t0.beside(g, ia, ib), all == t0.both(ia, ib), a_idx.arena == ArenaIndex::Internal(ia), b_idx.arena == ArenaIndex::Internal(ib), na == t0.n(ia), nb == t0.n(ib), all.len() == na + nb, na < 12, nb < 12, t0.deal(g, ia, ib, s, re_parent@),
                                s == 0, b.children@ == t0.nodes[ib].ch, a.children@ == all.subrange(0, na), t0.dealt(ia, ib, re_parent@, 0, na + i),»
                        {
                            «proof { t0.lm_deal(g, ia, ib, s, re_parent@, na + i); }»
                            let child = &b.children[i];
                            re_parent.insert(child.arena, (b_idx.arena, i + a.children.len()));
                        }
                        let vx_t = vx_take_vec(&mut b.children);
                        for vx_k in 0..vx_t.len()
                            «invariant all == t0.both(ia, ib), na == t0.n(ia), nb == t0.n(ib), na + nb < 12, a.children@ == all.subrange(0, na + vx_k), vx_t@ == t0.nodes[ib].ch,»
                        {
                            let child = vx_clone(&vx_t[vx_k]);
                            a.children.push(child).unwrap();
                            «proof { assert(a.children@ =~= all.subrange(0, na + vx_k + 1)); }»
                        }
                        «proof { assert(a.children@ =~= all); }»
                        b.children = vx_take_vec(&mut a.children);
                        b.calc_cache(&mut b_cache, None);
                        let parent = self.get_internal_mut(parent_idx);
                        parent.children[b_idx.arr as usize].cache = b_cache;
                        parent.children.remove(a_idx.arr as usize);
                        let is_lack = parent.is_lack();
                        «let ghost g1 = g_cut(g, ib, f + s); let ghost e = a_idx.arena;
                        proof {
                            c1 = t0.nodes[p].ch[k].cache; c2 = b_cache; assert(B::cok(c1));
                            let sh = t0.shared(ia, ib, s, c1, c2);
                            t3 = sh.drop(g1, e);
                            g4 = t0.regroup(g, ia, ib, s, c1, c2).g_drop(g1, e);
                            t4 = t0.regroup(g, ia, ib, s, c1, c2).drop(g1, e);
                            t0.lm_rep_drop(g, ia, ib, s, c1, c2, re_parent@, ia);
                            t0.lm_merged_ok(g, ia, ib, s, c1, c2, ia); if fat { t0.lm_merged_fat(g, ia, ib, s, c1, c2, ia, m); }
                            let u1 = self.ts();
                            assert(u1.nodes[ia] == ns(self.in_nodes@[ia]));
                            assert(u1.nodes[p].ch =~= sh.without(g1, e).nodes[p].ch);
                            assert(u1.nodes[ib].ch =~= sh.nodes[ib].ch);
                            assert(u1.nodes[ia].ch =~= Seq::empty());
                            u1.lm_shut_one(ia);
                        } let ghost u1 = self.ts();»
                        self.purge(a_idx.arena«, Ghost(only(ia))»);
                        «proof { u1.lm_sweep_one(self.ts(), ia);
                            self.g = Ghost(g4);
                            let t2 = t0.shared(ia, ib, s, c1, c2).without(g1, e);
                            assert(self.ts().nodes =~= t2.nodes);
                            assert(self.ts() == t2);
                        }»
                        self.update_children_parent_slot_from(parent_idx, a_idx.arr as usize);
                        is_lack
                    };
                    LackInfo {
                        parent_lack: if is_parent_lack {
                            Some(parent_idx)
                        } else {
                            None
                        },
                    }
                };
                «let ghost mp = re_parent@; let ghost mut mk = Map::<ArenaIndex, (ArenaIndex, usize)>::empty();
                proof {
                    if moving {
                        t3 = t0.shared(ia, ib, s, c1, c2);
                        t4 = t0.regroup(g, ia, ib, s, c1, c2);
                        g4 = g_cut(g, ib, f + s);
                        self.g = Ghost(g4);
                        t0.lm_rep_move(g, ia, ib, s, c1, c2, mp);
                        t0.lm_moved_ok(g, ia, ib, s, c1, c2);
                        if fat { t0.lm_moved_fat(g, ia, ib, s, c1, c2, m); t4.lm_fat(g4, p); }
                        assert(self.ts().nodes[p].ch =~= t3.nodes[p].ch);
                        assert(self.ts().nodes =~= t3.nodes);
                    }
                    assert(self.ts() == t3);
                    t3.lm_rep_id();
                }»
                if vx_any() {}
                let vx_v = re_parent.vx_pairs();
                for vx_k in 0..vx_v.len()
                    «invariant self.ts() == t3.rep(mk), forall|x: ArenaIndex| #[trigger] mk.contains_key(x) ==> mp.contains_key(x) && mk[x] == mp[x],
                        forall|i: int| 0 <= i < vx_v@.len() ==> mp.contains_key((#[trigger] vx_v@[i]).0) && mp[vx_v@[i].0] == vx_v@[i].1,
                        forall|i: int| 0 <= i < vx_k ==> mk.contains_key((#[trigger] vx_v@[i]).0),
                        forall|x: ArenaIndex| #[trigger] mp.contains_key(x) ==> t3.has(x) && mp[x].0 is Internal,
                        self.g@ == g4, self.root_cache == rc, self.uses(&u0),»
                {
                    «let ghost t5 = self.ts(); let ghost x = vx_v@[vx_k as int].0;
                    proof { assert(mp.contains_key(x)); assert(mp[x] == vx_v@[vx_k as int].1); t3.lm_rep_step(mk, x, mp[x]); mk = mk.insert(x, mp[x]); }
                    let ghost t6 = t3.rep(mk);»
                    let (child, (parent, slot)) = vx_v[vx_k];
                    match child {
                        ArenaIndex::Leaf(_) => {
                            let child = self.get_leaf_mut(child);
                            child.parent = parent.unwrap_internal();
                            «proof { assert(self.ts().leaves =~= t6.leaves); assert(self.ts().nodes =~= t6.nodes); }»
                        }
                        ArenaIndex::Internal(_) => {
                            «proof { assert(t5.nodes[x.ix()] == ns(self.in_nodes@[x.ix()])); }»
                            let child = self.get_internal_mut(child);
                            child.parent = Some(parent);
                            child.parent_slot = slot as u8;
                            «proof { assert(self.ts().nodes =~= t6.nodes); assert(self.ts().leaves =~= t6.leaves); }»
                        }
                    }
                }
                «proof {
                    assert(mk =~= mp);
                    assert(self.ts() == t4);
                    assert(t4.healed(g4, t0, g, p));
                    assert(t4.below(g4, t0, g, (g.ht)(m)) && t4.n(p) > 0);
                    if ans.parent_lack is None { t4.lm_sized(g4, p); }
                    assert(fat ==> match ans.parent_lack { None => t4.fat(g4), Some(a) => t4.fat_but(g4, p) });
                }»
                ans
            }
            None => «{ proof { self.lm_patched_self(&u0, m); reveal(TS::below); }» LackInfo {
                parent_lack: Some(parent_idx),
            }«}»,
        };
        «proof { assert(self.patched(&u0, m)); if t0.caches_ok() && t0.root_cache_ok(rc) { self.lm_patched(&u0, m); } }»
        ans
    }
//@ end
}
impl<B: BTreeTrait> TS<B> {
    proof fn lm_sim_but(self, o: TS<B>, g: G, m: RawArenaIndex)
        requires self.sim(o), self.lnk(g), self.sized_but(g, m)
        ensures o.sized_but(g, m), self.nodes.contains_key(m) ==> o.n(m) == self.n(m), o.nodes.contains_key(m) == self.nodes.contains_key(m), o.n(m) > 0 ==> o.sized(g)
    {
        reveal(TS::sized_but); reveal(TS::sized);
        self.lm_sim1(o, m);
        assert forall|y: RawArenaIndex| y != m implies #[trigger] o.size_ok(g, y) by { self.lm_sim1(o, y); assert(self.size_ok(g, y)); }
        if o.n(m) > 0 { assert forall|y: RawArenaIndex| #[trigger] o.size_ok(g, y) by { if y != m { assert(o.size_ok(g, y)); } } }
    }
}
impl<B: BTreeTrait> BTree<B> {
    proof fn lm_settled(&self, u: &Self, o: &Self)
        requires self.settled(u), u.ts().same_leaves(o.ts()), u.order() == o.order(), u.uses(o), u.root == o.root
        ensures self.settled(o)
    { self.ts().lm_same_trans(u.ts(), o.ts()); }
    // how far up there is something to do
    spec fn ailing(&self, x: Option<ArenaIndex>) -> int { match x { Some(a) => self.g@.lv.len() - (self.g@.ht)(a.ix()), None => 0 } }
//@ code src/lib.rs "BTree::handle_lack_recursively" tags=C04,C08,C05,C16,C02
    fn handle_lack_recursively(&mut self, node_idx: ArenaIndex)«
        requires node_idx is Internal, old(self).mend(node_idx.ix())
        ensures /*C04 C05 C08*/ final(self).settled(old(self)), /*C02*/ old(self).ts().fat_but(old(self).g@, node_idx.ix()) ==> final(self).ts().fat(final(self).g@)»
    {
        «let ghost fat = self.ts().fat_but(self.g@, node_idx.ix()); proof { self.lm_mends(node_idx.ix()); }»
        let mut lack_info = self.handle_lack_single_layer(node_idx);
        while let Some(parent) = lack_info.parent_lack
            «invariant_except_break
                match lack_info.parent_lack {
                    None => self.settled(old(self)) && (fat ==> self.ts().fat(self.g@)),
                    Some(a) => (fat ==> self.ts().fat_but(self.g@, a.ix())) && a is Internal && self.mend(a.ix()) && self.ts().same_leaves(old(self).ts()) && self.order() == old(self).order() && self.uses(old(self)) && self.root == old(self).root,
                },
            ensures self.settled(old(self)), fat ==> self.ts().fat(self.g@)
            decreases self.ailing(lack_info.parent_lack)»
        {
            «let ghost u = *self; proof { self.ts().lm_node(self.g@, parent.ix()); self.lm_mends(parent.ix()); }»
            lack_info = self.handle_lack_single_layer(parent);
            «proof {
                match lack_info.parent_lack {
                    None => { self.lm_settled(&u, old(self)); }
                    Some(a) => { self.ts().lm_same_trans(u.ts(), old(self).ts()); self.ts().lm_node(self.g@, a.ix()); }
                }
            }»
        }
    }
//@ end
//@ code src/lib.rs "BTree::remove_internal_node" tags=C04,C05,C08,C16,C02
    fn remove_internal_node(&mut self, node: RawArenaIndex)«
        requires old(self).mend(node), old(self).ts().n(node) == 0
        ensures /*C04 C05 C08*/ final(self).settled(old(self)), /*C02*/ old(self).ts().fat_but(old(self).g@, node) ==> final(self).ts().fat(final(self).g@)
        decreases old(self).g@.lv.len() - (old(self).g@.ht)(node)»
    {
        «let ghost t0 = self.ts(); let ghost g = self.g@; let ghost m = node; let ghost e = ArenaIndex::Internal(node);
        proof { t0.lm_root(g); t0.lm_node(g, m); t0.lm_same_self(); assert(t0.nodes[m] == ns(self.in_nodes@[m])); }»
        if node == self.root.unwrap() {
            «proof {
                t0.lm_bare(g); self.g = Ghost(g_flat(g, m));
                if t0.fat_but(g, m) { t0.lm_fat_but(g, m, m); reveal(TS::fat); reveal(TS::fat_but); assert forall|y: RawArenaIndex| #[trigger] t0.fat_ok(self.g@, y) by { assert(t0.fat_ok(g, y)); } }
            }»
            return;
        }
        «let ghost p = t0.par(e); let ghost g1 = t0.g_drop(g, e); let ghost t1 = t0.without(g, e);
        proof {
            t0.lm_par(g, e); t0.lm_node(g, p); assert(t0.nodes[p] == ns(self.in_nodes@[p]));
            t0.lm_drop(g, e); t0.lm_drop_rest(g, e); t0.lm_cx_any(ArenaIndex::Internal(p)); t0.lm_bare_ok(g, m); t1.slotted(g1, p, plc(g, e) - (g.fst)(p)).lm_healed(g1, t0, g, p, self.root_cache); if t0.fat_but(g, m) { t0.lm_fat_but(g, m, m); }
        }»
        let node = self.in_nodes.remove(node).unwrap();
        if let Some(parent_idx) = node.parent {
            let parent = self.in_nodes.get_mut(parent_idx.unwrap_internal()).unwrap();
            parent.children.remove(node.parent_slot as usize);
            let is_lack = parent.is_lack();
            let is_empty = parent.is_empty();
            «proof { self.g = Ghost(g1); assert(self.ts().nodes =~= t1.nodes); assert(self.ts() == t1); }»
            self.update_children_parent_slot_from(parent_idx, node.parent_slot as usize);
            «let ghost u = *self; proof { assert(u.mend(p)); }»
            if is_empty {
                self.remove_internal_node(parent_idx.unwrap_internal());
                «proof { self.lm_settled(&u, old(self)); }»
            } else if is_lack {
                self.handle_lack_recursively(parent_idx);
                «proof { self.lm_settled(&u, old(self)); }»
            }«
            else { proof { self.ts().lm_sized(g1, p); } }»
        } else {
            unreachable!()
        }
    }
//@ end
    // the leaf l of o is gone, and that is all
    spec fn gone(&self, o: &Self, l: RawArenaIndex) -> bool {
        let i = (o.g@.lpos)(l);
        &&& !self.leaf_nodes@.contains_key(l) && self.order() == o.order().remove(i) && self.ts().same_but(o.ts(), l, l, l)
        &&& self.all() == flat(o.items().subrange(0, i)) + flat(o.items().subrange(i + 1, o.order().len() as int))
    }
    proof fn lm_gone(&self, o: &Self, l: RawArenaIndex)
        requires self.ts().lnk(self.g@), o.ts().lnk(o.g@), o.leaf_nodes@.contains_key(l), !self.leaf_nodes@.contains_key(l), self.order() == o.order().remove((o.g@.lpos)(l)), self.ts().same_but(o.ts(), l, l, l)
        ensures self.gone(o, l)
    {
        let i = (o.g@.lpos)(l);
        o.lm_at_o(); self.lm_at_o();
        o.lm_around(l);
        assert forall|q: int| i + 1 <= q < o.order().len() implies self.order()[q - 1] == #[trigger] o.order()[q] by {}
        self.lm_items_part(o, l, l, l, i, i + 1, -1);
        let a = self.items().subrange(0, i);
        let b = self.items().subrange(i, self.order().len() as int);
        assert(self.items() =~= a + b);
        lm_flat_cat(a, b);
    }
//@ code src/lib.rs "BTree::remove_leaf" tags=C04,C05,C07,C08,C16,C02
    fn remove_leaf(&mut self, path: Cursor) -> «(r:» Option<B::Elem>«)
        requires old(self).inv(), old(self).has(path.leaf) ==> B::exact0() || old(self).ts().n(old(self).ts().leaves[path.leaf.0].parent) > 1
            || old(self).ts().leaves[path.leaf.0].parent == old(self).ts().rt() || old(self).ts().fat(old(self).g@)
        ensures /*C02*/ old(self).ts().fat(old(self).g@) ==> final(self).ts().fat(final(self).g@), /*C04 C05*/ final(self).inv(), /*C07*/ final(self).uses(old(self)), final(self).root == old(self).root,
            match r {
                None => /*C07*/ !old(self).has(path.leaf) && final(self).ts() == old(self).ts() && final(self).g == old(self).g && final(self).root_cache == old(self).root_cache,
                Some(x) => /*C08*/ old(self).has(path.leaf) && x == old(self).leaf_nodes@[path.leaf.0].elem && /*C07 C08*/ final(self).gone(old(self), path.leaf.0),
            }»
    {
        «let ghost t0 = self.ts(); let ghost g = self.g@; let ghost l = path.leaf.0; let ghost e = ArenaIndex::Leaf(l); let ghost p = t0.par(e);
        let ghost g1 = t0.g_drop(g, e); let ghost t1 = t0.without(g, e);
        proof {
            t0.lm_root(g); t0.lm_same_self();
            if t0.has(e) {
                t0.lm_leaf(g, l); t0.lm_par(g, e); t0.lm_node(g, p);
                if t0.fat(g) { t0.lm_fat(g, p); t0.lm_drop_fat(g, e); } assert(t0.nodes[p] == ns(self.in_nodes@[p]));
                t0.lm_sized_any(g, p); t0.lm_drop(g, e); t0.lm_drop_rest(g, e); t0.lm_cx_any(e); t0.lm_cxx(e, ArenaIndex::Internal(p)); t0.lm_drop_cx(g, e);
                assert forall|k: int| 0 <= k < t0.n(p) implies (#[trigger] t0.nodes[p].ch[k]).arena is Leaf && (t0.nodes[p].ch[k].arena == e ==> k == plc(g, e) - (g.fst)(p)) by { t0.lm_child(g, p, k); }
                let j = plc(g, e) - (g.fst)(p);
                assert(t0.nodes[p].ch[j].arena == e);
                assert(t0.drop(g, e) == t1) by { reveal(TS::drop); reveal(TS::g_drop); reveal(TS::slotted); if t1.n(p) > j { assert(t1.nodes[p].ch[0] == t0.nodes[p].ch[if j > 0 { 0 } else { 1 }]); } }
            }
        }»
        let leaf = self.leaf_nodes.get_mut(path.leaf.0)?;
        let parent_idx = leaf.parent();
        let parent = self.in_nodes.get_mut(leaf.parent).unwrap();
        let index = Self::get_leaf_slot(path.leaf.0, parent);
        let child = parent.children.remove(index);
        let is_lack = parent.is_lack();
        let is_empty = parent.is_empty();
        assert!(child.arena.unwrap() == path.leaf.0);
        let elem = self.leaf_nodes.remove(child.arena.unwrap()).unwrap().elem;
        «let ghost u = *self;
        proof {
            self.g = Ghost(g1);
            assert(self.ts().nodes =~= t1.nodes); assert(self.ts().leaves =~= t1.leaves); assert(self.ts() == t1);
            if p != t0.rt() { assert(t1.nodes[t0.rt()].ch == t0.nodes[t0.rt()].ch); t0.lm_size(g, t0.rt()); }
        }»
        self.recursive_update_cache(parent_idx, B::USE_DIFF, None);
        «let ghost t2 = self.ts(); let ghost u2 = *self;
        proof {
            t1.lm_sim(t2, g1); t1.lm_sim_but(t2, g1, p); t1.lm_sim1(t2, p); t1.lm_sim_fat(t2, g1, p); if t2.fat_but(g1, p) { t2.lm_fat_but(g1, p, p); }
            assert(t2.same_but(t0, l, l, l)) by { reveal(TS::same_but); assert forall|x: RawArenaIndex| x != l implies #[trigger] t2.same_leaf(t0, x) by { assert(t1.same_leaf(t0, x)); } }
            assert(self.mend(p));
        }»
        if is_empty {
            self.remove_internal_node(parent_idx.unwrap());
        } else if is_lack {
            self.handle_lack_recursively(parent_idx);
        }
        «proof {
            if !is_empty && !is_lack { t2.lm_same_self(); }
            assert(self.settled(&u2));
            assert(self.ts().same_but(t0, l, l, l)) by { reveal(TS::same_but); assert forall|x: RawArenaIndex| x != l implies #[trigger] self.ts().same_leaf(t0, x) by { self.ts().lm_same_leaf(t2, x); assert(t2.same_leaf(t0, x)); } }
            self.ts().lm_same_leaf(t2, l);
            self.lm_gone(old(self), l);
        }»
        Some(elem)
    }
//@ end
}
