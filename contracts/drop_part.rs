// iter.rs: what Drain does when it is dropped: the nodes the stretch leaves empty go, level by level. (C09, C04)
//@ rw children.retain(|x| $$u_b); ==> let mut vx_k = 0; while vx_k < children.len() { let x = &children[vx_k]; let vx_keep = $$u_b; if vx_keep { vx_k = vx_k + 1; } else { children.remove(vx_k); } }
impl<B: BTreeTrait> TS<B> {
    // the first k entries of s without those whose node or leaf is gone
    spec fn keepers(self, s: Seq<Child<B>>, k: int) -> Seq<Child<B>>
        decreases k
    {
        if k <= 0 { Seq::empty() } else if self.has(s[k - 1].arena) { self.keepers(s, k - 1).push(s[k - 1]) } else { self.keepers(s, k - 1) }
    }
    proof fn lm_keepers(self, s: Seq<Child<B>>, k: int, f: int, a: int, b: int)
        requires 0 <= k <= s.len(), a <= b, forall|j: int| 0 <= j < s.len() ==> self.has((#[trigger] s[j]).arena) == !(a <= f + j < b)
        ensures self.keepers(s, k) == chp(s.subrange(0, k), f, a, b)
        decreases k
    {
        if k > 0 {
            self.lm_keepers(s, k - 1, f, a, b);
            lm_chp(s.subrange(0, k), f, a, b);
            lm_chp(s.subrange(0, k - 1), f, a, b);
            assert(self.has(s[k - 1].arena) == !(a <= f + (k - 1) < b));
            assert(self.keepers(s, k) =~= chp(s.subrange(0, k), f, a, b));
        } else { assert(self.keepers(s, k) =~= chp(s.subrange(0, k), f, a, b)); }
    }
    proof fn lm_keepers_all(self, s: Seq<Child<B>>, k: int)
        requires 0 <= k <= s.len(), forall|j: int| 0 <= j < s.len() ==> self.has((#[trigger] s[j]).arena)
        ensures self.keepers(s, k) == s.subrange(0, k)
        decreases k
    {
        if k > 0 { self.lm_keepers_all(s, k - 1); assert(self.keepers(s, k) =~= s.subrange(0, k)); }
        else { assert(self.keepers(s, k) =~= s.subrange(0, k)); }
    }
    // the children of the two end nodes without the leaves taken out: what is left to do is above
    proof fn lm_lag0(self, o: TS<B>, g: G, c: TS<B>, k: G, i0: int, i1: int, s: RawArenaIndex, e: RawArenaIndex, x: Set<RawArenaIndex>)
        requires o.lnk(g), o.can_chop(g, 0, i0, i1), o.is_chop(c, g, 0, i0, i1), o.drained(g, c, k, 1, s, e, x),
            self.root == o.root, self.leaves == o.thin(g, i0, i1).leaves,
            (g.fst)(s) <= i0 <= (g.fst)(s) + o.n(s), (g.fst)(e) <= i1 <= (g.fst)(e) + o.n(e),
            forall|y: RawArenaIndex| self.nodes.contains_key(y) == o.nodes.contains_key(y),
            forall|y: RawArenaIndex| o.nodes.contains_key(y) ==> #[trigger] self.nodes[y] == (if y == s || y == e { NodeS { ch: c.nodes[y].ch, ..o.nodes[y] } } else { o.nodes[y] }),
        ensures self.lag(o, g, c, 1, s, e, Seq::empty())
    {
        reveal(TS::lag); reveal(TS::drained);
        assert forall|l: RawArenaIndex| #[trigger] c.leaves.contains_key(l) == self.leaves.contains_key(l) by { o.lm_chop_at(c, g, 0, i0, i1, l); }
        assert forall|l: RawArenaIndex| c.leaves.contains_key(l) implies #[trigger] c.leaves[l] == self.leaves[l] by { o.lm_chop_at(c, g, 0, i0, i1, l); }
        assert(self.leaves =~= c.leaves);
        assert forall|y: RawArenaIndex| #[trigger] self.lag1(o, g, c, 1, s, e, Seq::empty(), y) by {
            o.lm_chop_at(c, g, 0, i0, i1, y);
            if o.nodes.contains_key(y) {
                o.lm_node(g, y);
                lm_chp(o.nodes[y].ch, (g.fst)(y), i0, i1);
                if (g.ht)(y) == 1 && y != s && y != e && !Self::between(g, 1, s, e, y) {
                    o.lm_apart(g, s, y); o.lm_apart(g, e, y);
                    assert(c.nodes[y].ch =~= o.nodes[y].ch);
                }
            }
        }
    }
    // ---- one level up
    spec fn low(self, g: G, c: TS<B>, s: RawArenaIndex) -> int { (g.pos)(s) + if c.n(s) > 0 { 1int } else { 0 } }
    spec fn high(self, g: G, c: TS<B>, e: RawArenaIndex) -> int { (g.pos)(e) + if c.n(e) == 0 { 1int } else { 0 } }
    // what is known about the nodes the next step changes
    spec fn stepping(self, o: TS<B>, g: G, c: TS<B>, k: G, h: int, s: RawArenaIndex, e: RawArenaIndex, a: int, b: int, s1: RawArenaIndex, e1: RawArenaIndex) -> bool {
        let c1 = c.chop(k, h, a, b);
        &&& 1 <= h && h + 1 < g.lv.len() && k.lv[h] == g.lv[h] && k.lv.len() == g.lv.len() && k.ht == g.ht
        &&& c.can_chop(k, h, a, b) && c.is_chop(c1, k, h, a, b) && c1.lnk(g_chop(k, h, a, b)) && o.lnk(g) && c.lnk(k)
        &&& a <= (g.pos)(s) + 1 && (g.pos)(e) <= b && a <= b
        &&& o.par(ArenaIndex::Internal(s)) == s1 && o.par(ArenaIndex::Internal(e)) == e1
        &&& forall|z: RawArenaIndex| z == s || z == e || z == s1 || z == e1 ==> #[trigger] o.nodes.contains_key(z)
        &&& forall|z: RawArenaIndex| z == s1 || z == e1 ==> #[trigger] c.nodes.contains_key(z)
        &&& forall|z: RawArenaIndex| z == s1 || z == e1 ==> #[trigger] c1.nodes.contains_key(z)
        &&& forall|z: RawArenaIndex| z == s1 || z == e1 ==> #[trigger] self.nodes.contains_key(z)
        &&& self.nodes.contains_key(s) && self.nodes.contains_key(e)
        &&& s != o.rt() && e != o.rt()
        &&& forall|z: RawArenaIndex| z == s1 || z == e1 ==> #[trigger] self.nodes[z] == o.nodes[z] && c.nodes[z].ch == o.nodes[z].ch && (g.ht)(z) == h + 1 && (k.fst)(z) == (g.fst)(z)
                && c1.nodes[z].ch == chp(o.nodes[z].ch, (g.fst)(z), a, b) && o.node_ok(g, z)
        &&& self.n(s) == c.n(s) && self.n(e) == c.n(e)
        &&& (g.ht)(s) == h && (g.ht)(e) == h && (g.fst)(s1) + o.nodes[s].slot == (g.pos)(s) && (g.fst)(e1) + o.nodes[e].slot == (g.pos)(e)
        &&& o.nodes[s].slot < o.n(s1) && o.nodes[e].slot < o.n(e1)
        &&& (s1 == e1 || (g.fst)(s1) + o.n(s1) <= (g.fst)(e1)) && (g.pos)(s1) <= (g.pos)(e1) && (g.fst)(s1) <= a <= (g.fst)(s1) + o.n(s1) && (g.fst)(e1) <= b <= (g.fst)(e1) + o.n(e1)
    }
    proof fn lm_drop_prep(self, o: TS<B>, g: G, c: TS<B>, k: G, h: int, s: RawArenaIndex, e: RawArenaIndex, x: Set<RawArenaIndex>, del: Seq<ArenaIndex>, a: int, b: int)
        requires o.lnk(g), forall|y: RawArenaIndex| o.nodes.contains_key(y) ==> #[trigger] o.n(y) > 0,
            o.drained(g, c, k, h, s, e, x), self.lag(o, g, c, h, s, e, del), 1 <= h, h + 1 < g.lv.len(),
            a == self.low(g, c, s), b == self.high(g, c, e), s != e || c.n(s) == 0
        ensures ({
            let s1 = o.par(ArenaIndex::Internal(s));
            let e1 = o.par(ArenaIndex::Internal(e));
            &&& self.stepping(o, g, c, k, h, s, e, a, b, s1, e1)
            &&& o.drained(g, c.chop(k, h, a, b), g_chop(k, h, a, b), h + 1, s1, e1, x.insert(s1).insert(e1))
        })
    {
        let s1 = o.par(ArenaIndex::Internal(s));
        let e1 = o.par(ArenaIndex::Internal(e));
        let c1 = c.chop(k, h, a, b);
        assert(c.lnk(k) && o.upper(g, c, k, h) && o.nodes.contains_key(s) && o.nodes.contains_key(e) && (g.ht)(s) == h && (g.ht)(e) == h && (g.pos)(s) <= (g.pos)(e)) by { reveal(TS::drained); }
        assert(forall|y: RawArenaIndex| #[trigger] o.bare1(c, g, h, s, e, y)) by { reveal(TS::drained); }
        assert(c.cxs(Self::gap(g, h, s, e, x))) by { reveal(TS::drained); }
        assert(k.lv[h] == g.lv[h] && k.lv.len() == g.lv.len() && k.ht == g.ht && c.root == o.root) by { reveal(TS::upper); }
        assert forall|y: RawArenaIndex| #[trigger] o.upp1(g, c, k, h, y) by { reveal(TS::upper); }
        assert forall|y: RawArenaIndex| #[trigger] self.lag1(o, g, c, h, s, e, del, y) by { reveal(TS::lag); }
        o.lm_root(g);
        o.lm_node(g, s); o.lm_node(g, e);
        o.lm_par(g, ArenaIndex::Internal(s)); o.lm_par(g, ArenaIndex::Internal(e));
        o.lm_node(g, s1); o.lm_node(g, e1);
        if s != e { o.lm_order(g, s, e); }
        o.lm_apart(g, s1, e1);
        assert(o.upp1(g, c, k, h, s)); assert(o.upp1(g, c, k, h, e)); assert(o.upp1(g, c, k, h, s1)); assert(o.upp1(g, c, k, h, e1));
        assert(a <= b);
        assert forall|i: int| a <= i < b implies c.n(#[trigger] k.lv[h][i]) == 0 by {
            let y = g.lv[h][i];
            c.lm_at(k, h, i);
            o.lm_at(g, h, i);
            assert(o.bare1(c, g, h, s, e, y));
            if i == (g.pos)(s) { o.lm_order(g, s, y); } else if i == (g.pos)(e) { o.lm_order(g, e, y); } else { assert(Self::between(g, h, s, e, y)); }
        }
        assert(c.can_chop(k, h, a, b));
        c.lm_chop_is(k, h, a, b);
        assert forall|y: RawArenaIndex| c.nodes.contains_key(y) && #[trigger] c.n(y) == 0 implies c.chopped(k, h, a, b, ArenaIndex::Internal(y)) by {
            assert(o.bare1(c, g, h, s, e, y)); assert(o.upp1(g, c, k, h, y));
            if (g.pos)(y) == (g.pos)(s) { o.lm_order(g, s, y); }
            if (g.pos)(y) == (g.pos)(e) { o.lm_order(g, e, y); }
        }
        let f = Self::gap(g, h, s, e, x);
        assert forall|y: RawArenaIndex| #[trigger] f(y) && o.nodes.contains_key(y) implies x.contains(y) || c.chopped(k, h, a, b, ArenaIndex::Internal(y)) by {
            assert(o.upp1(g, c, k, h, y));
        }
        o.lm_chop_step(g, c, k, h, a, b, s1, e1, x, f, c1);
        c.lm_chop(c1, k, h, a, b);
        c.lm_chop_at(c1, k, h, a, b, s1); c.lm_chop_at(c1, k, h, a, b, e1);
        assert(self.lag1(o, g, c, h, s, e, del, s)); assert(self.lag1(o, g, c, h, s, e, del, e));
        assert(self.lag1(o, g, c, h, s, e, del, s1)); assert(self.lag1(o, g, c, h, s, e, del, e1));
        assert forall|z: RawArenaIndex| z == s1 || z == e1 implies #[trigger] self.nodes[z] == o.nodes[z] by { assert(self.lag1(o, g, c, h, s, e, del, z)); }
    }
    // the children of s1 and e1 as they are to be
    spec fn recut(self, c1: TS<B>, s1: RawArenaIndex, e1: RawArenaIndex) -> TS<B> { self.setch(s1, c1.nodes[s1].ch).setch(e1, c1.nodes[e1].ch) }
    proof fn lm_recut(self, o: TS<B>, g: G, c: TS<B>, k: G, h: int, s: RawArenaIndex, e: RawArenaIndex, x: Set<RawArenaIndex>, del: Seq<ArenaIndex>, a: int, b: int, s1: RawArenaIndex, e1: RawArenaIndex, i: int)
        requires self.stepping(o, g, c, k, h, s, e, a, b, s1, e1), self.lag(o, g, c, h, s, e, del), o.upper(g, c, k, h),
            i == if s1 == e1 { a - (g.fst)(e1) } else { 0 },
        ensures ({
            let c1 = c.chop(k, h, a, b);
            let t = self.recut(c1, s1, e1);
            let t1 = t.slotted(g_chop(k, h, a, b), e1, i);
            &&& t.can_slot(g_chop(k, h, a, b), e1, i)
            &&& t1.root == self.root && t1.leaves == self.leaves && forall|y: RawArenaIndex| #[trigger] t1.lagging(self, o, c1, s1, e1, y)
        })
    {
        let c1 = c.chop(k, h, a, b);
        let k1 = g_chop(k, h, a, b);
        let t = self.recut(c1, s1, e1);
        let t1 = t.slotted(k1, e1, i);
        c1.lm_node(k1, e1);
        assert(c.root == o.root) by { reveal(TS::upper); }
        assert(self.nodes[s1] == o.nodes[s1] && self.nodes[e1] == o.nodes[e1] && c1.nodes.contains_key(s1) && c1.nodes.contains_key(e1));
        assert forall|j: int| i <= j < t.n(e1) implies #[trigger] t.slotting(k1, e1, j) by {
            c1.lm_child(k1, e1, j);
            let y = c1.nodes[e1].ch[j].arena.ix();
            c1.lm_par(k1, c1.nodes[e1].ch[j].arena);
            c.lm_chop_at(c1, k, h, a, b, y);
            assert(o.upp1(g, c, k, h, y)) by { reveal(TS::upper); }
            assert(self.lag1(o, g, c, h, s, e, del, y)) by { reveal(TS::lag); }
        }
        if t.n(e1) > 0 { c1.lm_child(k1, e1, 0); }
        assert(t.can_slot(k1, e1, i));
        if t.n(e1) > i {
            assert forall|l: RawArenaIndex| t.leaves.contains_key(l) implies !hit(k1, h, (k1.fst)(e1) + i, (k1.fst)(e1) + t.n(e1), ArenaIndex::Leaf(l)) by {}
            assert(t1.leaves =~= self.leaves);
        }
        assert forall|y: RawArenaIndex| #[trigger] t1.lagging(self, o, c1, s1, e1, y) by {
            self.lm_recut_at(o, g, c, k, h, s, e, del, a, b, s1, e1, i, y);
        }
    }
    proof fn lm_recut_at(self, o: TS<B>, g: G, c: TS<B>, k: G, h: int, s: RawArenaIndex, e: RawArenaIndex, del: Seq<ArenaIndex>, a: int, b: int, s1: RawArenaIndex, e1: RawArenaIndex, i: int, y: RawArenaIndex)
        requires self.stepping(o, g, c, k, h, s, e, a, b, s1, e1), self.lag(o, g, c, h, s, e, del), o.upper(g, c, k, h),
            i == if s1 == e1 { a - (g.fst)(e1) } else { 0 },
        ensures ({
            let c1 = c.chop(k, h, a, b);
            let t = self.recut(c1, s1, e1);
            let t1 = t.slotted(g_chop(k, h, a, b), e1, i);
            t1.lagging(self, o, c1, s1, e1, y)
        })
    {
        let c1 = c.chop(k, h, a, b);
        let k1 = g_chop(k, h, a, b);
        let t = self.recut(c1, s1, e1);
        let t1 = t.slotted(k1, e1, i);
        assert(c.root == o.root) by { reveal(TS::upper); }
        assert(self.nodes[s1] == o.nodes[s1] && self.nodes[e1] == o.nodes[e1] && c1.nodes.contains_key(s1) && c1.nodes.contains_key(e1));
        if t.n(e1) > 0 { c1.lm_child(k1, e1, 0); }
        assert(t1.nodes.contains_key(y) == self.nodes.contains_key(y));
        let ya = ArenaIndex::Internal(y);
        c.lm_chop_at(c1, k, h, a, b, y);
        assert(o.upp1(g, c, k, h, y)) by { reveal(TS::upper); }
        assert(self.lag1(o, g, c, h, s, e, del, y)) by { reveal(TS::lag); }
        let u = hit(k1, h, (k1.fst)(e1) + i, (k1.fst)(e1) + t.n(e1), ya);
        assert(t.nodes[y].slot == self.nodes[y].slot && t.nodes[y].par == self.nodes[y].par);
        if c1.nodes.contains_key(y) {
            c1.lm_root(k1);
            c.lm_root(k);
            c.lm_node(k, y);
            c1.lm_node(k1, y);
            if (g.ht)(y) == h && y != o.rt() {
                self.lm_recut_slot(o, g, c, k, h, s, e, a, b, s1, e1, i, y);
            } else { assert(!u); assert(c1.nodes[y].slot == c.nodes[y].slot); }
            assert(self.nodes[y].slot == c.nodes[y].slot);
            assert(t1.nodes[y].slot == c1.nodes[y].slot);
        }
        if self.nodes.contains_key(y) {
            assert(t1.nodes[y].ch == (if y == s1 || y == e1 { c1.nodes[y].ch } else { self.nodes[y].ch }));
            if u && t.n(e1) > i && t.nodes[e1].ch[0].arena is Internal {
                let j = (k1.pos)(y) - (k1.fst)(e1);
                c1.lm_child(k1, e1, j);
                assert(c1.nodes[e1].ch[j].arena == ya);
            }
            assert(t1.nodes[y].par == self.nodes[y].par);
        }
    }
    proof fn lm_recut_slot(self, o: TS<B>, g: G, c: TS<B>, k: G, h: int, s: RawArenaIndex, e: RawArenaIndex, a: int, b: int, s1: RawArenaIndex, e1: RawArenaIndex, i: int, y: RawArenaIndex)
        requires self.stepping(o, g, c, k, h, s, e, a, b, s1, e1), o.upper(g, c, k, h),
            i == if s1 == e1 { a - (g.fst)(e1) } else { 0 },
            c.chop(k, h, a, b).nodes.contains_key(y), (g.ht)(y) == h, y != o.rt(), c.root == o.root,
        ensures ({
            let c1 = c.chop(k, h, a, b);
            let k1 = g_chop(k, h, a, b);
            if hit(k1, h, (k1.fst)(e1) + i, (k1.fst)(e1) + c1.n(e1), ArenaIndex::Internal(y)) { c1.nodes[y].slot == (k1.pos)(y) - (k1.fst)(e1) && c1.par(ArenaIndex::Internal(y)) == e1 }
            else { c1.nodes[y].slot == c.nodes[y].slot }
        })
    {
        let c1 = c.chop(k, h, a, b);
        let k1 = g_chop(k, h, a, b);
        let ya = ArenaIndex::Internal(y);
        let u = hit(k1, h, (k1.fst)(e1) + i, (k1.fst)(e1) + c1.n(e1), ya);
        assert(self.nodes[s1] == o.nodes[s1] && self.nodes[e1] == o.nodes[e1]);
        assert(c1.nodes.contains_key(s1) && c1.nodes.contains_key(e1) && c.nodes.contains_key(s1) && c.nodes.contains_key(e1));
        c.lm_chop_at(c1, k, h, a, b, y);
        c1.lm_root(k1); c.lm_root(k);
        c.lm_node(k, y); c1.lm_node(k1, y);
        c.lm_par(k, ya);
        c1.lm_par(k1, ya);
        let q = c.par(ya);
        assert(c1.par(ya) == q);
        c.lm_node(k, q);
        c1.lm_node(k1, q);
        c.lm_node(k, e1); c.lm_node(k, s1);
        c.lm_chop_at(c1, k, h, a, b, q);
        assert(o.upp1(g, c, k, h, q)) by { reveal(TS::upper); }
        c1.lm_apart(k1, e1, q);
        c.lm_apart(k, e1, q);
        c.lm_apart(k, s1, q);
        lm_chp(c.nodes[q].ch, (k.fst)(q), a, b);
        if u {
            assert(q == e1);
        } else if (k.pos)(y) >= b {
            if q == e1 {
                if s1 == e1 { assert((k1.pos)(y) >= a); }
                assert(false);
            } else if q == s1 { assert(false); }
            else if (g.fst)(q) + c.n(q) <= (g.fst)(s1) { assert(c.lost(k, a, b, q) == 0); }
            else if (k.fst)(q) >= (k.fst)(e1) + c.n(e1) { assert(c.lost(k, a, b, q) == 0); }
            else { assert(false); }
        }
    }
    // what the step lists as taken out
    proof fn lm_more(self, o: TS<B>, g: G, c: TS<B>, k: G, h: int, s: RawArenaIndex, e: RawArenaIndex, a: int, b: int, s1: RawArenaIndex, e1: RawArenaIndex, more: Seq<ArenaIndex>)
        requires self.stepping(o, g, c, k, h, s, e, a, b, s1, e1),
            more == if s1 == e1 { arenas(o.nodes[s1].ch.subrange(a - (g.fst)(s1), b - (g.fst)(s1))) }
                else { arenas(o.nodes[s1].ch.subrange(a - (g.fst)(s1), o.n(s1))) + arenas(o.nodes[e1].ch.subrange(0, b - (g.fst)(e1))) },
        ensures
            forall|i: int| a <= i < b && (o.par(ArenaIndex::Internal(#[trigger] g.lv[h][i])) == s1 || o.par(ArenaIndex::Internal(g.lv[h][i])) == e1) ==> more.contains(ArenaIndex::Internal(g.lv[h][i])),
            forall|i: int| 0 <= i < more.len() ==> exists|j: int| a <= j < b && #[trigger] more[i] == ArenaIndex::Internal(#[trigger] g.lv[h][j]),
            forall|i: int| a <= i < b ==> (g.pos)(s1) <= (g.pos)(o.par(ArenaIndex::Internal(#[trigger] g.lv[h][i]))) <= (g.pos)(e1),
    {
        let (f, fe, n) = ((g.fst)(s1), (g.fst)(e1), o.n(s1));
        let m1 = if s1 == e1 { b - a } else { f + n - a };
        assert(self.nodes[s1] == o.nodes[s1] && self.nodes[e1] == o.nodes[e1] && o.nodes.contains_key(s1) && o.nodes.contains_key(e1));
        assert((g.ht)(s1) == h + 1 && (g.ht)(e1) == h + 1);
        assert forall|i: int| 0 <= i < more.len() implies exists|j: int| a <= j < b && #[trigger] more[i] == ArenaIndex::Internal(#[trigger] g.lv[h][j]) by {
            if i < m1 {
                o.lm_child(g, s1, a - f + i);
                assert(o.nodes[s1].ch.subrange(a - f, a - f + m1)[i] == o.nodes[s1].ch[a - f + i]);
                assert(more[i] == ArenaIndex::Internal(g.lv[h][a + i]));
            } else {
                o.lm_child(g, e1, i - m1);
                assert(o.nodes[e1].ch.subrange(0, b - fe)[i - m1] == o.nodes[e1].ch[i - m1]);
                assert(more[i] == ArenaIndex::Internal(g.lv[h][fe + (i - m1)]));
            }
        }
        assert forall|i: int| a <= i < b implies (g.pos)(s1) <= (g.pos)(o.par(ArenaIndex::Internal(#[trigger] g.lv[h][i]))) <= (g.pos)(e1)
            && (o.par(ArenaIndex::Internal(g.lv[h][i])) == s1 || o.par(ArenaIndex::Internal(g.lv[h][i])) == e1 ==> more.contains(ArenaIndex::Internal(g.lv[h][i]))) by {
            let ya = ArenaIndex::Internal(g.lv[h][i]);
            o.lm_at(g, h, i);
            o.lm_root(g);
            assert(aix(g, h, i) == ya);
            assert(h < g.lv.len() - 1);
            o.lm_node(g, ya.ix());
            assert(hgt(g, ya) == h && ya != o.root);
            o.lm_par(g, ya);
            let p = o.par(ya);
            o.lm_node(g, p);
            o.lm_apart(g, s1, p);
            o.lm_apart(g, e1, p);
            if p == s1 {
                assert(o.nodes[s1].ch.subrange(a - f, if s1 == e1 { b - f } else { n })[i - a] == o.nodes[s1].ch[i - f]);
                assert(more[i - a] == ya);
            } else if p == e1 {
                assert(o.nodes[e1].ch.subrange(0, b - fe)[i - fe] == o.nodes[e1].ch[i - fe]);
                assert(more[m1 + i - fe] == ya);
            }
        }
    }
}
// what a walk to a leaf passes
proof fn lm_path_node<B: BTreeTrait>(o: TS<B>, g: G, p: Seq<Idx>, i: int)
    requires o.shape(g), o.path_ok(p), p.len() == g.lv.len(), 0 <= i < p.len() - 1
    ensures p[i].arena is Internal, o.nodes.contains_key(p[i].arena.ix()), (g.ht)(p[i].arena.ix()) == g.lv.len() - 1 - i, p[i].arena == ArenaIndex::Internal(p[i].arena.ix()),
        i > 0 ==> o.par(p[i].arena) == p[i - 1].arena.ix() && p[i].arr == o.nodes[p[i].arena.ix()].slot && p[i].arena != o.root && p[i].arr < o.n(p[i - 1].arena.ix())
            && o.nodes[p[i - 1].arena.ix()].ch[p[i].arr as int].arena == p[i].arena
            && p[i - 1].arena == ArenaIndex::Internal(p[i - 1].arena.ix()),
        i == 0 ==> p[i].arena == o.root,
{
    o.lm_path(g, p, i);
    assert(o.step_ok(p, i));
    if i > 0 {
        assert(o.step_ok(p, i - 1));
        o.lm_child(g, p[i - 1].arena.ix(), p[i].arr as int);
    }
}
spec fn onp(p: Seq<Idx>, q: Seq<Idx>, y: RawArenaIndex) -> bool {
    exists|i: int| 0 <= i < p.len() && (p[i].arena == ArenaIndex::Internal(y) || q[i].arena == ArenaIndex::Internal(y))
}
impl<B: BTreeTrait> TS<B> {
    spec fn draining(self, o: TS<B>, g: G, c: TS<B>, k: G, h: int, s: RawArenaIndex, e: RawArenaIndex, x: Set<RawArenaIndex>, del: Seq<ArenaIndex>) -> bool {
        o.drained(g, c, k, h, s, e, x) && self.lag(o, g, c, h, s, e, del)
    }
}
#[verifier::external_body]
fn vx_part<'a, T, const N: usize, R: RangeBounds<usize>>(x: &'a HeaplessVec<T, N>, r: R) -> (s: &'a [T])
    requires rb_valid(r, x@.len() as int)
    ensures s@ == x@.subrange(rb_lo(r), rb_hi(r, x@.len() as int))
{ unimplemented!() }
impl<B: BTreeTrait> BTree<B> {
//@ code src/lib.rs "BTree::filter_deleted_children" tags=C09,C16
    fn filter_deleted_children(&mut self, internal_node: ArenaIndex)«
        requires internal_node is Internal, old(self).in_nodes@.contains_key(internal_node.ix())
        ensures final(self).g == old(self).g, final(self).root_cache == old(self).root_cache, final(self).in_nodes.used() == old(self).in_nodes.used(),
            final(self).leaf_nodes == old(self).leaf_nodes,
            /*C09*/ final(self).ts() == old(self).ts().setch(internal_node.ix(), old(self).ts().keepers(old(self).ts().nodes[internal_node.ix()].ch, old(self).ts().n(internal_node.ix())))»
    {
        «let ghost t0 = self.ts(); let ghost m = internal_node.ix(); let ghost ch = t0.nodes[m].ch; let ghost n = t0.n(m);
        proof { assert(t0.nodes[m] == ns(self.in_nodes@[m])); }»
        let node = self
            .in_nodes
            .get_mut(internal_node.unwrap_internal())
            .unwrap();
        let mut children = vx_take_vec(&mut node.children);
        «let ghost mut j: int = 0; let ghost u = *self;
        proof { assert(self.ts().nodes =~= t0.setch(m, Seq::empty()).nodes); assert(ch.subrange(0, n) =~= ch); assert(t0.keepers(ch, 0) + ch.subrange(0, n) =~= ch); }»
        let mut vx_k = 0;
        while vx_k < children.len()
            «invariant
                *self == u, u.ts() == t0.setch(m, Seq::empty()), t0.nodes.contains_key(m), t0.nodes[m].ch == ch, ch.len() == n,
                0 <= j <= n, vx_k == t0.keepers(ch, j).len(), children@ == t0.keepers(ch, j) + ch.subrange(j, n),
            ensures children@ == t0.keepers(ch, n)
            decreases n - j»
        {
            let x = &children[vx_k];
            «proof { assert(*x == ch[j]); u.lm_ts(); assert(t0.has(ch[j].arena) == u.ts().has(ch[j].arena)); }»
            let vx_keep = match x.arena {
                ArenaIndex::Leaf(leaf) => self.leaf_nodes.contains(leaf),
                ArenaIndex::Internal(index) => self.in_nodes.contains(index),
            };
            «proof {
                assert(vx_keep == t0.has(ch[j].arena));
                if vx_keep { assert(t0.keepers(ch, j) + ch.subrange(j, n) =~= t0.keepers(ch, j + 1) + ch.subrange(j + 1, n)); }
                else { assert((t0.keepers(ch, j) + ch.subrange(j, n)).remove(vx_k as int) =~= t0.keepers(ch, j + 1) + ch.subrange(j + 1, n)); }
                j = j + 1;
            }»
            if vx_keep {
                vx_k = vx_k + 1;
            } else {
                children.remove(vx_k);
            }
        }
        let node = self
            .in_nodes
            .get_mut(internal_node.unwrap_internal())
            .unwrap();
        node.children = children;
        «proof { assert(self.ts().nodes =~= t0.setch(m, t0.keepers(ch, n)).nodes); }»
    }
//@ end
//@ code src/iter.rs "Drop for Drain::drop" tags=C09,C04,C16
//@ rw fn drop(&mut self) { $$u_pre while start_path[level].arena != end_path[level].arena { $$u_body level -= 1 } while level >= 1 { $$u_mid self.tree.try_reduce_levels(); } } ==> fn vx_drop_step(&mut self, start_path: &NodePath, end_path: &NodePath, level: usize, deleted: &mut Vec<ArenaIndex>) { $$u_body }
//@ rw self.tree ==> self
//@ rw for x in &$p_a.children[$$u_r] { ==> let vx_s = vx_part(&$p_a.children, $$u_r); for vx_k in 0..vx_s.len() { let x = &vx_s[vx_k];
    fn vx_drop_step(&mut self, start_path: &NodePath, end_path: &NodePath, level: usize, deleted: &mut Vec<ArenaIndex>«, Ghost(o): Ghost<TS<B>>, Ghost(g): Ghost<G>, Ghost(c): Ghost<TS<B>>, Ghost(k): Ghost<G>, Ghost(x0): Ghost<Set<RawArenaIndex>>»)«
        requires o.shape(g), o.path_ok(start_path@), o.path_ok(end_path@), start_path@.len() == g.lv.len(), end_path@.len() == g.lv.len(), level < g.lv.len() - 1,
            start_path@[level as int].arena != end_path@[level as int].arena,
            old(self).ts().draining(o, g, c, k, g.lv.len() - 1 - level, start_path@[level as int].arena.ix(), end_path@[level as int].arena.ix(), x0, old(deleted)@),
        ensures ({
            let h = g.lv.len() - 1 - level;
            let a = o.low(g, c, start_path@[level as int].arena.ix());
            let b = o.high(g, c, end_path@[level as int].arena.ix());
            let s1 = start_path@[level as int - 1].arena.ix();
            let e1 = end_path@[level as int - 1].arena.ix();
            &&& level > 0 && final(self).ts().draining(o, g, c.chop(k, h, a, b), g_chop(k, h, a, b), h + 1, s1, e1, x0.insert(s1).insert(e1), final(deleted)@)
        }), final(self).root == old(self).root, final(self).root_cache == old(self).root_cache, final(self).in_nodes.used() == old(self).in_nodes.used(),
            final(self).leaf_nodes == old(self).leaf_nodes»
    {
        «let ghost t0 = self.ts(); let ghost h = g.lv.len() - 1 - level; let ghost s = start_path@[level as int].arena.ix(); let ghost e = end_path@[level as int].arena.ix();
        let ghost a = o.low(g, c, s); let ghost b = o.high(g, c, e); let ghost c1 = c.chop(k, h, a, b); let ghost k1 = g_chop(k, h, a, b); let ghost del0 = deleted@;
        let ghost s1 = start_path@[level as int - 1].arena.ix(); let ghost e1 = end_path@[level as int - 1].arena.ix(); let ghost x1 = x0.insert(s1).insert(e1);
        proof {
            self.lm_ts();
            lm_path_node(o, g, start_path@, level as int); lm_path_node(o, g, end_path@, level as int);
            o.lm_root(g); assert(level > 0);
            assert forall|y: RawArenaIndex| o.nodes.contains_key(y) implies #[trigger] o.n(y) > 0 by { o.lm_node(g, y); }
            t0.lm_drop_prep(o, g, c, k, h, s, e, x0, del0, a, b);
            assert(o.upper(g, c, k, h)) by { reveal(TS::drained); }
            t0.lm_recut(o, g, c, k, h, s, e, x0, del0, a, b, s1, e1, if s1 == e1 { a - (g.fst)(e1) } else { 0 });
            assert(t0.nodes[s1] == o.nodes[s1] && t0.nodes[e1] == o.nodes[e1] && t0.nodes.contains_key(s1) && t0.nodes.contains_key(e1));
            assert(t0.nodes.contains_key(s) && t0.nodes.contains_key(e));
            assert(c1.nodes[s1].ch == chp(o.nodes[s1].ch, (g.fst)(s1), a, b) && c1.nodes[e1].ch == chp(o.nodes[e1].ch, (g.fst)(e1), a, b));
            assert(t0.nodes[s] == ns(self.in_nodes@[s])); assert(t0.nodes[e] == ns(self.in_nodes@[e]));
            assert(t0.nodes[s1] == ns(self.in_nodes@[s1])); assert(t0.nodes[e1] == ns(self.in_nodes@[e1]));
            o.lm_node(g, s1); o.lm_node(g, e1);
        }»
        let start_node = self.get_internal(start_path[level].arena);
        let end_node = self.get_internal(end_path[level].arena);
        let del_start = if start_node.is_empty() {
            start_path[level].arr
        } else {
            start_path[level].arr + 1
        };
        let del_end = if end_node.is_empty() {
            end_path[level].arr + 1
        } else {
            end_path[level].arr
        };
        «proof { assert(del_start == a - (g.fst)(s1)); assert(del_end == b - (g.fst)(e1)); } let ghost mut more = Seq::<ArenaIndex>::empty();»

        // remove del_start.. in start_node's parent
        // remove   ..del_end in end_node's   parent
        let start_arena = start_path[level - 1].arena;
        let end_arena = end_path[level - 1].arena;
        if start_arena == end_arena {
            // parent is the same, delete start..end
            let parent = self.get_internal_mut(start_arena);
            let vx_s = vx_part(&parent.children, del_start as usize..del_end as usize);
            «let ghost m1 = arenas(vx_s@); proof { more = m1; assert(del0 + m1.subrange(0, 0) =~= del0); assert(vx_s@ == o.nodes[s1].ch.subrange(a - (g.fst)(s1), b - (g.fst)(s1))); }»
            for vx_k in 0..vx_s.len()
                «invariant m1 == arenas(vx_s@), deleted@ == del0 + m1.subrange(0, vx_k as int)»
            {
                let x = &vx_s[vx_k];
                deleted.push(x.arena);
                «proof { assert(del0 + m1.subrange(0, vx_k + 1) =~= (del0 + m1.subrange(0, vx_k as int)).push(x.arena)); }»
            }
            «proof { assert(m1.subrange(0, vx_s@.len() as int) =~= m1); }»
            delete_range(&mut parent.children, del_start as usize..del_end as usize);
            «proof {
                assert(parent.children@ == c1.nodes[s1].ch);
                assert(after_borrow(self).ts().nodes =~= t0.recut(c1, s1, e1).nodes);
            }
            self.g = Ghost(k1);»
            self
                .update_children_parent_slot_from(start_arena, del_start as usize);
        } else {
            // parent is different
            {
                // delete start..
                let start_parent = self.get_internal_mut(start_arena);
                let vx_s = vx_part(&start_parent.children, del_start as usize..);
                «let ghost m1 = arenas(vx_s@); proof { more = m1; assert(del0 + m1.subrange(0, 0) =~= del0); assert(vx_s@ == o.nodes[s1].ch.subrange(a - (g.fst)(s1), o.n(s1))); }»
                for vx_k in 0..vx_s.len()
                    «invariant m1 == arenas(vx_s@), deleted@ == del0 + m1.subrange(0, vx_k as int)»
                {
                    let x = &vx_s[vx_k];
                    deleted.push(x.arena);
                    «proof { assert(del0 + m1.subrange(0, vx_k + 1) =~= (del0 + m1.subrange(0, vx_k as int)).push(x.arena)); }»
                }
                «proof { assert(m1.subrange(0, vx_s@.len() as int) =~= m1); }»
                delete_range(&mut start_parent.children, del_start as usize..);
                «proof {
                    assert(start_parent.children@ =~= c1.nodes[s1].ch);
                    assert(after_borrow(self).ts().nodes =~= t0.setch(s1, c1.nodes[s1].ch).nodes);
                }»
            }
            {
                // delete ..end
                «let ghost del1 = deleted@; proof { assert(self.ts().nodes[e1] == ns(self.in_nodes@[e1])); }»
                let end_parent = self.get_internal_mut(end_arena);
                let vx_s = vx_part(&end_parent.children, ..del_end as usize);
                «let ghost m2 = arenas(vx_s@); proof { more = more + m2; assert(del1 + m2.subrange(0, 0) =~= del1); assert(vx_s@ == o.nodes[e1].ch.subrange(0, b - (g.fst)(e1))); }»
                for vx_k in 0..vx_s.len()
                    «invariant m2 == arenas(vx_s@), deleted@ == del1 + m2.subrange(0, vx_k as int)»
                {
                    let x = &vx_s[vx_k];
                    deleted.push(x.arena);
                    «proof { assert(del1 + m2.subrange(0, vx_k + 1) =~= (del1 + m2.subrange(0, vx_k as int)).push(x.arena)); }»
                }
                «proof { assert(m2.subrange(0, vx_s@.len() as int) =~= m2); assert(deleted@ =~= del0 + more); }»
                delete_range(&mut end_parent.children, ..del_end as usize);
                «proof {
                    assert(end_parent.children@ =~= c1.nodes[e1].ch);
                    assert(after_borrow(self).ts().nodes =~= t0.recut(c1, s1, e1).nodes);
                }
                self.g = Ghost(k1);»
                self.update_children_parent_slot_from(end_arena, 0);
            }
        }
        «proof {
            t0.lm_more(o, g, c, k, h, s, e, a, b, s1, e1, more);
            self.ts().lm_lag_step(t0, o, g, c, k, h, s, e, x0, del0, a, b, c1, s1, e1, x1, more);
        }»
    }
//@ end
}
impl<B: BTreeTrait> TS<B> {
    // where the leaves of a stretch are gone, the nodes above its ends keep what is not in it
    proof fn lm_filtered(self, o: TS<B>, g: G, i0: int, i1: int, m: RawArenaIndex)
        requires o.lnk(g), 0 <= i0 <= i1 <= g.lv[0].len(), self.leaves == o.thin(g, i0, i1).leaves, self.nodes.contains_key(m), o.nodes.contains_key(m), (g.ht)(m) == 1,
            self.nodes[m].ch == o.nodes[m].ch || self.nodes[m].ch == chp(o.nodes[m].ch, (g.fst)(m), i0, i1)
        ensures self.keepers(self.nodes[m].ch, self.n(m)) == chp(o.nodes[m].ch, (g.fst)(m), i0, i1)
    {
        let s = o.nodes[m].ch;
        let f = (g.fst)(m);
        let n = o.n(m);
        o.lm_root(g);
        o.lm_node(g, m);
        lm_chp(s, f, i0, i1);
        assert forall|j: int| 0 <= j < n implies self.has((#[trigger] s[j]).arena) == !(i0 <= f + j < i1) by {
            o.lm_child(g, m, j);
        }
        if self.nodes[m].ch == s {
            self.lm_keepers(s, n, f, i0, i1);
            assert(s.subrange(0, n) =~= s);
        } else {
            let r = self.nodes[m].ch;
            let lo = cl(i0 - f, n); let hi = cl(i1 - f, n);
            assert forall|j: int| 0 <= j < r.len() implies self.has((#[trigger] r[j]).arena) by {
                let i = if j < lo { j } else { j + (hi - lo) };
                assert(r[j] == s[i]);
            }
            self.lm_keepers_all(r, self.n(m));
            assert(r.subrange(0, self.n(m)) =~= r);
        }
    }
    // the first step: the leaves
    proof fn lm_drop_start(self, o: TS<B>, g: G, i0: int, i1: int, s: RawArenaIndex, e: RawArenaIndex)
        requires o.shape(g), o.caches_ok(), 0 <= i0 <= i1 <= g.lv[0].len(), o.nodes.contains_key(s), o.nodes.contains_key(e), (g.ht)(s) == 1, (g.ht)(e) == 1,
            (g.fst)(s) <= i0 < (g.fst)(s) + o.n(s), (g.fst)(e) <= i1 <= (g.fst)(e) + o.n(e), i1 < g.lv[0].len() ==> i1 < (g.fst)(e) + o.n(e),
            ({
                let c = o.chop(g, 0, i0, i1);
                self == o.thin(g, i0, i1).setch(s, c.nodes[s].ch).setch(e, c.nodes[e].ch)
            })
        ensures self.draining(o, g, o.chop(g, 0, i0, i1), g_chop(g, 0, i0, i1), 1, s, e, Set::<RawArenaIndex>::empty().insert(s).insert(e), Seq::empty())
    {
        let c = o.chop(g, 0, i0, i1);
        let k = g_chop(g, 0, i0, i1);
        o.lm_root(g);
        o.lm_chop_is(g, 0, i0, i1);
        assert(o.upper(g, o, g, 0)) by {
            reveal(TS::upper);
            assert forall|y: RawArenaIndex| #[trigger] o.upp1(g, o, g, 0, y) by {}
            assert forall|l: RawArenaIndex| #[trigger] o.sub0(o, l) by {}
        }
        let f = |y: RawArenaIndex| false;
        assert(o.cxs(f)) by {
            reveal(TS::cxs); reveal(TS::caches_ok);
            assert forall|m: RawArenaIndex| #[trigger] o.cxs1(f, m) by { assert(o.cache_ok(m)); }
        }
        o.lm_node(g, s); o.lm_node(g, e);
        assert forall|y: RawArenaIndex| o.nodes.contains_key(y) implies #[trigger] o.n(y) > 0 by { o.lm_node(g, y); o.lm_size(g, y); if o.n(y) == 0 { assert(g.lv[0].len() == 0); } }
        o.lm_apart(g, s, e);
        o.lm_chop_step(g, o, g, 0, i0, i1, s, e, Set::empty(), f, c);
        o.lm_chop_at(c, g, 0, i0, i1, s); o.lm_chop_at(c, g, 0, i0, i1, e);
        self.lm_lag0(o, g, c, k, i0, i1, s, e, Set::<RawArenaIndex>::empty().insert(s).insert(e));
    }
    // one step up where both ends are the same node, which is without children
    proof fn lm_drop_up(self, t1: TS<B>, o: TS<B>, g: G, c: TS<B>, k: G, h: int, s: RawArenaIndex, x: Set<RawArenaIndex>, del: Seq<ArenaIndex>)
        requires o.shape(g), self.draining(o, g, c, k, h, s, s, x, del), 1 <= h, h + 1 < g.lv.len(), self.n(s) == 0, forall|y: RawArenaIndex| o.nodes.contains_key(y) ==> #[trigger] o.n(y) > 0,
        ensures ({
            let s1 = o.par(ArenaIndex::Internal(s));
            let a = (g.pos)(s);
            let i = o.nodes[s].slot as int;
            let c1 = c.chop(k, h, a, a + 1);
            let k1 = g_chop(k, h, a, a + 1);
            let t = self.setch(s1, self.nodes[s1].ch.remove(i));
            &&& self.nodes.contains_key(s) && self.nodes.contains_key(s1) && s != s1 && 0 <= i < self.n(s1) && self.nodes[s1].ch[i].arena == ArenaIndex::Internal(s) && self.nodes[s1].ch == o.nodes[s1].ch
            &&& (g.ht)(s1) == h + 1
            &&& t.can_slot(k1, s1, i)
            &&& t1 == t.slotted(k1, s1, i) ==> t1.draining(o, g, c1, k1, h + 1, s1, s1, x.insert(s1), del.push(ArenaIndex::Internal(s)))
        })
    {
        let s1 = o.par(ArenaIndex::Internal(s));
        let a = (g.pos)(s);
        let i = o.nodes[s].slot as int;
        let c1 = c.chop(k, h, a, a + 1);
        let k1 = g_chop(k, h, a, a + 1);
        assert(c.n(s) == 0 && o.upper(g, c, k, h) && c.lnk(k) && o.nodes.contains_key(s) && (g.ht)(s) == h) by {
            reveal(TS::drained); reveal(TS::lag);
            assert(self.lag1(o, g, c, h, s, s, del, s));
            assert(o.upp1(g, c, k, h, s)) by { reveal(TS::upper); }
        }
        self.lm_drop_prep(o, g, c, k, h, s, s, x, del, a, a + 1);
        assert(x.insert(s1).insert(s1) =~= x.insert(s1));
        self.lm_recut(o, g, c, k, h, s, s, x, del, a, a + 1, s1, s1, a - (g.fst)(s1));
        assert(self.nodes[s1] == o.nodes[s1] && self.nodes.contains_key(s1) && o.nodes.contains_key(s1));
        o.lm_par(g, ArenaIndex::Internal(s));
        lm_chp(o.nodes[s1].ch, (g.fst)(s1), a, a + 1);
        assert(self.nodes[s1].ch.remove(i) =~= c1.nodes[s1].ch);
        assert(self.setch(s1, c1.nodes[s1].ch).nodes =~= self.recut(c1, s1, s1).nodes);
        if t1 == self.setch(s1, self.nodes[s1].ch.remove(i)).slotted(k1, s1, i) {
            let more = seq![ArenaIndex::Internal(s)];
            assert(arenas(o.nodes[s1].ch.subrange(a - (g.fst)(s1), a + 1 - (g.fst)(s1))) =~= more);
            self.lm_more(o, g, c, k, h, s, s, a, a + 1, s1, s1, more);
            t1.lm_lag_step(self, o, g, c, k, h, s, s, x, del, a, a + 1, c1, s1, s1, x.insert(s1), more);
            assert(del + more =~= del.push(ArenaIndex::Internal(s)));
        }
    }
    // nothing is without children but s
    proof fn lm_drop_done(self, o: TS<B>, g: G, c: TS<B>, k: G, h: int, s: RawArenaIndex, x: Set<RawArenaIndex>, f: spec_fn(RawArenaIndex) -> bool)
        requires o.lnk(g), o.drained(g, c, k, h, s, s, x), c.n(s) > 0 || s == o.rt(), forall|y: RawArenaIndex| x.contains(y) ==> #[trigger] f(y), o.not_full()
        ensures c.lnk(k), c.sized_but(k, c.rt()), c.cxs(f), c.not_full(), c.root == o.root, k.lv.len() == g.lv.len(), o.upper(g, c, k, h)
    {
        reveal(TS::drained); reveal(TS::cxs); reveal(TS::sized_but); reveal(TS::not_full);
        let d = Self::gap(g, h, s, s, x);
        assert(o.upper(g, c, k, h));
        reveal(TS::upper);
        assert forall|m: RawArenaIndex| #[trigger] c.cxs1(f, m) by {
            assert(c.cxs1(d, m));
            assert forall|y: RawArenaIndex| #[trigger] d(y) implies f(y) by {}
        }
        assert forall|y: RawArenaIndex| y != c.rt() implies #[trigger] c.size_ok(k, y) by {
            assert(o.bare1(c, g, h, s, s, y));
            if c.nodes.contains_key(y) && c.n(y) == 0 {
                assert(o.upp1(g, c, k, h, y));
                o.lm_order(g, s, y);
            }
        }
        assert forall|y: RawArenaIndex| #[trigger] c.roomy(y) by { assert(o.upp1(g, c, k, h, y)); assert(o.roomy(y)); }
    }
}
impl<B: BTreeTrait> BTree<B> {
    // this tree is o without the leaves from i0 to i1. What it holds is right, but for the entries of the nodes f.
    spec fn drained_of(&self, o: &Self, i0: int, i1: int, f: spec_fn(RawArenaIndex) -> bool) -> bool {
        let t = self.ts();
        let g = self.g@;
        &&& t.lnk(g) && t.sized_but(g, t.rt()) && t.not_full() && t.cxs(f)
        &&& g.lv[0] == chp(o.g@.lv[0], 0, i0, i1) && g.lv.len() == o.g@.lv.len()
        &&& t.leaves == o.ts().thin(o.g@, i0, i1).leaves && self.root == o.root && self.root_cache == o.root_cache && self.uses(o) && g.ht == o.g@.ht
        &&& forall|y: RawArenaIndex| t.nodes.contains_key(y) ==> #[trigger] t.nodes[y].par == o.ts().nodes[y].par && o.ts().nodes.contains_key(y)
    }
//@ code src/iter.rs "Drop for Drain::drop" tags=C09,C04,C16
//@ rw fn drop(&mut self) { $$u_pre let mut level = $$u_body if let Some(after) = $$u_mid self.tree.try_reduce_levels(); } } ==> fn vx_drop1(&mut self, start_path: NodePath, end_path: NodePath) { let mut level = $$u_body }
//@ rw while start_path[level].arena != end_path[level].arena { $$u_step level -= 1 } while ==> while start_path[level].arena != end_path[level].arena { self.vx_drop_step(&start_path, &end_path, level, &mut deleted); level -= 1; } while
//@ rw self.tree ==> self
//@ rw for x in deleted { ==> for vx_k in 0..deleted.len() { let x = deleted[vx_k];
    fn vx_drop1(&mut self, start_path: NodePath, end_path: NodePath«, Ghost(ob): Ghost<Self>, Ghost(i0): Ghost<int>, Ghost(i1): Ghost<int>»)«
        requires ob.inv(), 0 <= i0 <= i1 <= ob.order().len(), i0 < ob.order().len(), old(self).ts() == ob.ts().thin(ob.g@, i0, i1), old(self).g == ob.g,
            old(self).root_cache == ob.root_cache, old(self).in_nodes.used() == ob.in_nodes.used(), old(self).leaf_nodes.used() == ob.leaf_nodes.used(),
            ob.ts().path_ok(start_path@), start_path@.len() == ob.g@.lv.len(), start_path@.last().arena == ArenaIndex::Leaf(ob.g@.lv[0][i0]),
            ob.ts().path_ok(end_path@), end_path@.len() == ob.g@.lv.len(), end_path@.last().arena == ArenaIndex::Leaf(ob.g@.lv[0][if i1 < ob.order().len() { i1 } else { ob.order().len() - 1 }]),
        ensures /*C09*/ final(self).drained_of(&ob, i0, i1, |y: RawArenaIndex| onp(start_path@, end_path@, y))»
    {
        «let ghost o = ob.ts(); let ghost g = ob.g@; let ghost n = ob.order().len() as int; let ghost L = g.lv.len() as int;
        let ghost c0 = o.chop(g, 0, i0, i1); let ghost p = start_path@; let ghost q = end_path@;
        let ghost f = |y: RawArenaIndex| onp(p, q, y);
        proof {
            o.lm_root(g);
            ob.lm_at_o();
            lm_path_node(o, g, p, L - 2); lm_path_node(o, g, q, L - 2);
            o.lm_path(g, p, L - 1); o.lm_path(g, q, L - 1);
            assert(o.step_ok(p, L - 2)); assert(o.step_ok(q, L - 2));
            assert forall|y: RawArenaIndex| o.nodes.contains_key(y) implies #[trigger] o.n(y) > 0 by { o.lm_node(g, y); o.lm_size(g, y); if o.n(y) == 0 { assert(g.lv[0].len() == 0); } }
        }»
        // the deepest internal node level
        let mut level = start_path.len() - 2;
        let mut deleted = Vec::new();
        «let ghost mut s = p[level as int].arena.ix(); let ghost mut e = q[level as int].arena.ix(); let ghost mut c = c0; let ghost mut k = g_chop(g, 0, i0, i1); let ghost mut h = 1int;
        let ghost mut x = Set::<RawArenaIndex>::empty().insert(s).insert(e);
        proof {
            o.lm_chop_is(g, 0, i0, i1);
            o.lm_chop_at(c0, g, 0, i0, i1, s); o.lm_chop_at(c0, g, 0, i0, i1, e);
            o.lm_node(g, s); o.lm_node(g, e);
            self.lm_ts();
            self.ts().lm_filtered(o, g, i0, i1, s);
            o.lm_leaf(g, g.lv[0][i0]); o.lm_at(g, 0, i0);
            o.lm_at(g, 0, if i1 < n { i1 } else { n - 1 });
        }»

        // The deepest internal node level, need to filter deleted children
        // to ensure is_empty() has correct result
        self.filter_deleted_children(start_path[level].arena);
        «proof { self.ts().lm_filtered(o, g, i0, i1, e); self.lm_ts(); }»
        self.filter_deleted_children(end_path[level].arena);
        «proof {
            assert(self.ts().nodes =~= o.thin(g, i0, i1).setch(s, c.nodes[s].ch).setch(e, c.nodes[e].ch).nodes);
            self.ts().lm_drop_start(o, g, i0, i1, s, e);
            assert(deleted@ =~= Seq::<ArenaIndex>::empty());
            assert forall|y: RawArenaIndex| x.contains(y) implies #[trigger] f(y) by { assert(p[level as int].arena == ArenaIndex::Internal(s) && q[level as int].arena == ArenaIndex::Internal(e)); }
        }»
        while start_path[level].arena != end_path[level].arena
            «invariant
                level < L - 1, h == L - 1 - level, s == p[level as int].arena.ix(), e == q[level as int].arena.ix(), p == start_path@, q == end_path@, L == g.lv.len(),
                o.shape(g), o.path_ok(p), o.path_ok(q), p.len() == L, q.len() == L,
                self.ts().draining(o, g, c, k, h, s, e, x, deleted@), k.lv[0] == chp(g.lv[0], 0, i0, i1), L >= 2,
                forall|y: RawArenaIndex| x.contains(y) ==> #[trigger] f(y), f == (|y: RawArenaIndex| onp(p, q, y)),
                self.root == ob.root, self.root_cache == ob.root_cache, self.in_nodes.used() == ob.in_nodes.used(), self.leaf_nodes.used() == ob.leaf_nodes.used(), self.leaf_nodes@ == o.thin(g, i0, i1).leaves,
            decreases level»
        {
            «let ghost a = o.low(g, c, s); let ghost b = o.high(g, c, e);»
            self.vx_drop_step(&start_path, &end_path, level, &mut deleted«, Ghost(o), Ghost(g), Ghost(c), Ghost(k), Ghost(x)»);
            level -= 1;
            // this loop will abort before overflow, because level=0 is guaranteed to be the same
            «proof {
                lm_path_node(o, g, p, level as int); lm_path_node(o, g, q, level as int);
                c = c.chop(k, h, a, b); k = g_chop(k, h, a, b);
                s = p[level as int].arena.ix(); e = q[level as int].arena.ix();
                x = x.insert(s).insert(e); h = h + 1;
                assert forall|y: RawArenaIndex| x.contains(y) implies #[trigger] f(y) by { assert(p[level as int].arena == ArenaIndex::Internal(s) && q[level as int].arena == ArenaIndex::Internal(e)); }
            }»
        }

        while level >= 1
            «invariant
                level < L - 1, h == L - 1 - level, s == p[level as int].arena.ix(), p == start_path@, L == g.lv.len(),
                o.shape(g), o.path_ok(p), p.len() == L, q.len() == L,
                forall|y: RawArenaIndex| o.nodes.contains_key(y) ==> #[trigger] o.n(y) > 0,
                self.ts().draining(o, g, c, k, h, s, s, x, deleted@), k.lv[0] == chp(g.lv[0], 0, i0, i1), L >= 2,
                forall|y: RawArenaIndex| x.contains(y) ==> #[trigger] f(y), f == (|y: RawArenaIndex| onp(p, q, y)),
                self.root == ob.root, self.root_cache == ob.root_cache, self.in_nodes.used() == ob.in_nodes.used(), self.leaf_nodes.used() == ob.leaf_nodes.used(), self.leaf_nodes@ == o.thin(g, i0, i1).leaves,
            ensures self.ts().n(s) > 0 || s == o.rt()
            decreases level»
        {
            «let ghost t0 = self.ts(); let ghost s1 = p[level as int - 1].arena.ix(); let ghost a = (g.pos)(s); let ghost i = o.nodes[s].slot as int; let ghost del0 = deleted@;
            proof {
                self.lm_ts();
                lm_path_node(o, g, p, level as int);
                if t0.n(s) == 0 { t0.lm_drop_up(t0, o, g, c, k, h, s, x, deleted@); }
                else { assert(t0.nodes.contains_key(s) && t0.nodes.contains_key(s1)) by { reveal(TS::drained); reveal(TS::lag); o.lm_par(g, ArenaIndex::Internal(s)); assert(t0.lag1(o, g, c, h, s, s, deleted@, s)); assert(t0.lag1(o, g, c, h, s, s, deleted@, s1)); } o.lm_par(g, ArenaIndex::Internal(s)); }
                assert(t0.nodes[s] == ns(self.in_nodes@[s])); assert(t0.nodes[s1] == ns(self.in_nodes@[s1]));
                assert(s != s1);
            }»
            let (child, parent) = self
                .get2_mut(start_path[level].arena, start_path[level - 1].arena);
            if child.is_empty() {
                assert!(
                    parent.children[start_path[level].arr as usize].arena ==
                    start_path[level].arena
                );
                deleted.push(parent.children.remove(start_path[level].arr as usize).arena);
                «proof { assert(after_borrow(self).ts().nodes =~= t0.setch(s1, t0.nodes[s1].ch.remove(i)).nodes); }
                let ghost k1 = g_chop(k, h, a, a + 1);
                self.g = Ghost(k1);»
                self.update_children_parent_slot_from(
                    start_path[level - 1].arena,
                    start_path[level].arr as usize,
                );
                «proof {
                    assert(deleted@ =~= del0.push(ArenaIndex::Internal(s)));
                    t0.lm_drop_up(self.ts(), o, g, c, k, h, s, x, del0);
                    c = c.chop(k, h, a, a + 1); k = k1; s = s1; x = x.insert(s1); h = h + 1;
                    assert forall|y: RawArenaIndex| x.contains(y) implies #[trigger] f(y) by { assert(p[level as int - 1].arena == ArenaIndex::Internal(s)); }
                }»
            } else {
                «proof { assert(self.ts().nodes =~= t0.nodes); assert(self.ts() == t0); }»
                break;
            }
            level -= 1;
        }
        «let ghost t = self.ts(); let ghost w = t.dead(c);
        proof {
            assert(c.n(s) == t.n(s) && c.nodes.contains_key(s)) by { reveal(TS::drained); reveal(TS::lag); reveal(TS::upper); assert(t.lag1(o, g, c, h, s, s, deleted@, s)); assert(o.upp1(g, c, k, h, s)); }
            o.lm_drop_done(o, g, c, k, h, s, x, f);
            t.lm_dead(o, g, c, k, h, s, x, deleted@);
            t.lm_swept_self(w);
        }»

        // release memory
        for vx_k in 0..deleted.len()
            «invariant
                t.shut(w), self.ts().swept(t, w), forall|i: int| 0 <= i < deleted@.len() ==> (#[trigger] deleted@[i]) is Internal && w.contains(deleted@[i].ix()),
                forall|i: int| 0 <= i < vx_k ==> !self.ts().nodes.contains_key((#[trigger] deleted@[i]).ix()),
                self.root == ob.root, self.root_cache == ob.root_cache, self.in_nodes.used() == ob.in_nodes.used(), self.leaf_nodes.used() == ob.leaf_nodes.used()»
        {
            let x = deleted[vx_k];
            «let ghost t1 = self.ts(); proof { t1.lm_swept_shut(t, w); }»
            self.purge(x«, Ghost(w)»);
            «proof {
                self.ts().lm_swept_trans(t1, t, w);
                reveal(TS::swept);
                assert forall|i: int| 0 <= i < vx_k + 1 implies !self.ts().nodes.contains_key((#[trigger] deleted@[i]).ix()) by { assert(self.ts().swept1(t1, w, deleted@[i].ix())); }
            }»
        }
        «proof {
            self.ts().lm_purged(t, o, g, c, k, h, s, x, deleted@);
            assert(c.leaves == o.thin(g, i0, i1).leaves) by { reveal(TS::lag); }
            reveal(TS::upper);
            assert forall|y: RawArenaIndex| c.nodes.contains_key(y) implies #[trigger] c.nodes[y].par == o.nodes[y].par && o.nodes.contains_key(y) by { assert(o.upp1(g, c, k, h, y)); }
        }
        self.g = Ghost(k);»
    }
//@ end
}
