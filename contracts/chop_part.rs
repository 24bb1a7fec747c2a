// A stretch of one level taken out at once. (C04, C09)
// how many of n places in a row are before place x of them
spec fn cl(x: int, n: int) -> int { if x < 0 { 0 } else if x > n { n } else { x } }
// where place x comes to be
spec fn cutp(x: int, a: int, b: int) -> int { if x <= a { x } else if x >= b { x - (b - a) } else { a } }
// s, which begins at place f, without the places from a to b
spec fn chp<T>(s: Seq<T>, f: int, a: int, b: int) -> Seq<T> {
    s.subrange(0, cl(a - f, s.len() as int)) + s.subrange(cl(b - f, s.len() as int), s.len() as int)
}
proof fn lm_chp<T>(s: Seq<T>, f: int, a: int, b: int)
    requires a <= b
    ensures ({
        let n = s.len() as int;
        let lo = cl(a - f, n);
        let hi = cl(b - f, n);
        let r = chp(s, f, a, b);
        &&& 0 <= lo <= hi <= n && r.len() == n - (hi - lo)
        &&& cutp(f, a, b) + r.len() == cutp(f + n, a, b)
        &&& forall|k: int| 0 <= k < lo ==> #[trigger] r[k] == s[k] && f + k < a && cutp(f, a, b) == f
        &&& forall|k: int| lo <= k < r.len() ==> #[trigger] r[k] == s[k + (hi - lo)] && f + k + (hi - lo) >= b && cutp(f, a, b) + k == f + k + (hi - lo) - (b - a)
    })
{}
spec fn g_chop(g: G, h: int, a: int, b: int) -> G {
    G {
        lv: g.lv.update(h, chp(g.lv[h], 0, a, b)),
        ht: g.ht,
        pos: |y: RawArenaIndex| if (g.ht)(y) == h && (g.pos)(y) >= b { (g.pos)(y) - (b - a) } else { (g.pos)(y) },
        fst: |y: RawArenaIndex| if (g.ht)(y) == h + 1 { cutp((g.fst)(y), a, b) } else { (g.fst)(y) },
        lpos: |y: RawArenaIndex| if h == 0 && (g.lpos)(y) >= b { (g.lpos)(y) - (b - a) } else { (g.lpos)(y) },
    }
}
impl<B: BTreeTrait> TS<B> {
    // a node or leaf in the stretch
    spec fn chopped(self, g: G, h: int, a: int, b: int, x: ArenaIndex) -> bool { hgt(g, x) == h && a <= plc(g, x) < b }
    // the slots node p loses
    spec fn lost(self, g: G, a: int, b: int, p: RawArenaIndex) -> int { cl(b - (g.fst)(p), self.n(p)) - cl(a - (g.fst)(p), self.n(p)) }
    // c is this tree without the places from a to b of level h
    spec fn chop1(self, c: TS<B>, g: G, h: int, a: int, b: int, y: RawArenaIndex) -> bool {
        let x = ArenaIndex::Internal(y);
        &&& c.nodes.contains_key(y) == (self.nodes.contains_key(y) && !self.chopped(g, h, a, b, x))
        &&& c.nodes.contains_key(y) ==> {
            &&& c.nodes[y].par == self.nodes[y].par
            &&& c.nodes[y].ch == if (g.ht)(y) == h + 1 { chp(self.nodes[y].ch, (g.fst)(y), a, b) } else { self.nodes[y].ch }
            &&& c.nodes[y].slot == self.nodes[y].slot - if (g.ht)(y) == h && (g.pos)(y) >= b && y != self.rt() { self.lost(g, a, b, self.par(x)) } else { 0 }
        }
    }
    spec fn chop0(self, c: TS<B>, g: G, h: int, a: int, b: int, l: RawArenaIndex) -> bool {
        &&& c.leaves.contains_key(l) == (self.leaves.contains_key(l) && !self.chopped(g, h, a, b, ArenaIndex::Leaf(l)))
        &&& c.leaves.contains_key(l) ==> c.leaves[l] == self.leaves[l]
    }
    #[verifier::opaque]
    spec fn is_chop(self, c: TS<B>, g: G, h: int, a: int, b: int) -> bool {
        &&& c.root == self.root
        &&& forall|y: RawArenaIndex| #[trigger] self.chop1(c, g, h, a, b, y)
        &&& forall|l: RawArenaIndex| #[trigger] self.chop0(c, g, h, a, b, l)
    }
    // what is taken out has no children
    spec fn can_chop(self, g: G, h: int, a: int, b: int) -> bool {
        &&& 0 <= h < g.lv.len() - 1 && 0 <= a <= b <= g.lv[h].len()
        &&& h > 0 ==> forall|i: int| a <= i < b ==> self.n(#[trigger] g.lv[h][i]) == 0
    }
    spec fn chop(self, g: G, h: int, a: int, b: int) -> TS<B> {
        TS {
            nodes: self.nodes.remove_keys(self.nodes.dom().filter(|y: RawArenaIndex| self.chopped(g, h, a, b, ArenaIndex::Internal(y)))).map_entries(|y: RawArenaIndex, x: NodeS<B>|
                NodeS {
                    par: x.par,
                    slot: (x.slot - if (g.ht)(y) == h && (g.pos)(y) >= b && y != self.rt() { self.lost(g, a, b, self.par(ArenaIndex::Internal(y))) } else { 0 }) as u8,
                    ch: if (g.ht)(y) == h + 1 { chp(x.ch, (g.fst)(y), a, b) } else { x.ch },
                }),
            leaves: self.leaves.remove_keys(self.leaves.dom().filter(|l: RawArenaIndex| self.chopped(g, h, a, b, ArenaIndex::Leaf(l)))),
            root: self.root,
        }
    }
    proof fn lm_chop_is(self, g: G, h: int, a: int, b: int)
        requires self.lnk(g), self.can_chop(g, h, a, b)
        ensures self.is_chop(self.chop(g, h, a, b), g, h, a, b)
    {
        reveal(TS::is_chop);
        let c = self.chop(g, h, a, b);
        assert forall|y: RawArenaIndex| #[trigger] self.chop1(c, g, h, a, b, y) by {
            let x = ArenaIndex::Internal(y);
            if c.nodes.contains_key(y) && (g.ht)(y) == h && (g.pos)(y) >= b && y != self.rt() {
                self.lm_node(g, y);
                self.lm_par(g, x);
                let p = self.par(x);
                self.lm_node(g, p);
                lm_chp(self.nodes[p].ch, (g.fst)(p), a, b);
            }
        }
        assert forall|l: RawArenaIndex| #[trigger] self.chop0(c, g, h, a, b, l) by {}
    }
    proof fn lm_chop_at(self, c: TS<B>, g: G, h: int, a: int, b: int, y: RawArenaIndex)
        requires self.is_chop(c, g, h, a, b)
        ensures self.chop1(c, g, h, a, b, y), self.chop0(c, g, h, a, b, y), c.root == self.root
    { reveal(TS::is_chop); assert(self.chop1(c, g, h, a, b, y)); assert(self.chop0(c, g, h, a, b, y)); }
    proof fn lm_chop_node(self, c: TS<B>, g: G, h: int, a: int, b: int, y: RawArenaIndex)
        requires self.lnk(g), self.can_chop(g, h, a, b), self.is_chop(c, g, h, a, b), c.nodes.contains_key(y)
        ensures c.node_ok(g_chop(g, h, a, b), y)
    {
        let g1 = g_chop(g, h, a, b);
        self.lm_root(g);
        self.lm_chop_at(c, g, h, a, b, y);
        self.lm_node(g, y);
        let hy = (g.ht)(y);
        let n = self.n(y);
        let f = (g.fst)(y);
        lm_chp(g.lv[h], 0, a, b);
        lm_chp(self.nodes[y].ch, f, a, b);
        assert(c.place_ok(g1, y)) by {
            if hy == h { let i = (g1.pos)(y); assert(g1.lv[h][i] == g.lv[h][(g.pos)(y)]); }
        }
        assert(c.cover_ok(g1, y)) by {
            if (g.pos)(y) + 1 < g.lv[hy].len() { self.lm_at(g, hy, (g.pos)(y) + 1); self.lm_node(g, g.lv[hy][(g.pos)(y) + 1]); }
            if hy == h {
                // the nodes taken out cover nothing
                if a < b {
                    self.lm_hollow(g, h, a, b);
                    let z = g.lv[h][a];
                    self.lm_at(g, h, a); self.lm_node(g, z);
                    let w = g.lv[h][b - 1];
                    self.lm_at(g, h, b - 1); self.lm_node(g, w);
                    if b < g.lv[h].len() { self.lm_at(g, h, b); self.lm_node(g, g.lv[h][b]); assert(g.lv[h][b] == g1.lv[h][a]); }
                    if a > 0 { self.lm_at(g, h, a - 1); self.lm_node(g, g.lv[h][a - 1]); }
                }
                if (g1.pos)(y) + 1 < g1.lv[h].len() {
                    let j = (g1.pos)(y) + 1;
                    assert(g1.lv[h][j] == g.lv[h][if j < a { j } else { j + (b - a) }]);
                }
            }
            if hy == h + 1 { assert(g1.lv[h].len() == cutp(g.lv[h].len() as int, a, b)); }
        }
        assert(c.kids_ok(g1, y)) by {
            assert forall|j: int| 0 <= j < c.n(y) implies (#[trigger] c.nodes[y].ch[j]).arena == aix(g1, hy - 1, (g1.fst)(y) + j) by {
                if hy == h + 1 {
                    let lo = cl(a - f, n); let hi = cl(b - f, n);
                    let k = if j < lo { j } else { j + (hi - lo) };
                    assert(self.nodes[y].ch[k].arena == aix(g, h, f + k));
                    let q = (g1.fst)(y) + j;
                    assert(g1.lv[h][q] == g.lv[h][f + k]);
                } else {
                    assert(self.nodes[y].ch[j].arena == aix(g, hy - 1, f + j));
                }
            }
        }
        assert(c.link_ok(g1, y)) by {
            if y != self.rt() {
                let x = ArenaIndex::Internal(y);
                let p = self.par(x);
                self.lm_par(g, x);
                self.lm_node(g, p);
                self.lm_chop_at(c, g, h, a, b, p);
                lm_chp(self.nodes[p].ch, (g.fst)(p), a, b);
                if hy + 1 == h && a <= (g.pos)(p) < b { assert(self.n(g.lv[h][(g.pos)(p)]) == 0); }
            }
        }
    }
    // the nodes from a to b cover nothing
    proof fn lm_hollow(self, g: G, h: int, a: int, b: int)
        requires self.lnk(g), self.can_chop(g, h, a, b), h > 0, a < b
        ensures (g.fst)(g.lv[h][b - 1]) == (g.fst)(g.lv[h][a])
        decreases b - a
    {
        if a + 1 < b {
            self.lm_hollow(g, h, a, b - 1);
            let z = g.lv[h][b - 2];
            self.lm_at(g, h, b - 2);
            self.lm_node(g, z);
        }
    }
    proof fn lm_chop(self, c: TS<B>, g: G, h: int, a: int, b: int)
        requires self.lnk(g), self.can_chop(g, h, a, b), self.is_chop(c, g, h, a, b)
        ensures c.lnk(g_chop(g, h, a, b))
    {
        let g1 = g_chop(g, h, a, b);
        self.lm_root(g);
        lm_chp(g.lv[h], 0, a, b);
        self.lm_chop_at(c, g, h, a, b, self.rt());
        assert(c.top_ok(g1)) by { assert(g1.lv.last() == seq![self.rt()]); }
        assert forall|y: RawArenaIndex| #[trigger] c.node_ok(g1, y) by { if c.nodes.contains_key(y) { self.lm_chop_node(c, g, h, a, b, y); } }
        assert forall|hh: int, ii: int| #[trigger] c.lvl_ok(g1, hh, ii) by {
            if 1 <= hh < g1.lv.len() && 0 <= ii < g1.lv[hh].len() {
                let jj = if hh == h && ii >= a { ii + (b - a) } else { ii };
                self.lm_at(g, hh, jj);
                assert(g1.lv[hh][ii] == g.lv[hh][jj]);
                self.lm_chop_at(c, g, h, a, b, g.lv[hh][jj]);
            }
        }
        assert forall|ii: int| #[trigger] c.lfl_ok(g1, ii) by {
            if 0 <= ii < g1.lv[0].len() {
                let jj = if h == 0 && ii >= a { ii + (b - a) } else { ii };
                self.lm_at(g, 0, jj);
                assert(g1.lv[0][ii] == g.lv[0][jj]);
                self.lm_chop_at(c, g, h, a, b, g.lv[0][jj]);
            }
        }
        assert forall|l: RawArenaIndex| #[trigger] c.leaf_ok(g1, l) by {
            if c.leaves.contains_key(l) {
                self.lm_chop_at(c, g, h, a, b, l);
                self.lm_leaf(g, l);
                let p = self.leaves[l].parent;
                self.lm_node(g, p);
                self.lm_chop_at(c, g, h, a, b, p);
                lm_chp(self.nodes[p].ch, (g.fst)(p), a, b);
                if h == 1 && a <= (g.pos)(p) < b { assert(self.n(g.lv[h][(g.pos)(p)]) == 0); }
                if h == 0 { let i = (g1.lpos)(l); assert(g1.lv[0][i] == g.lv[0][(g.lpos)(l)]); }
            }
        }
        reveal(TS::lnk);
    }
}

impl<B: BTreeTrait> TS<B> {
    // every entry is right, but perhaps those for nodes of x
    spec fn cxs1(self, x: spec_fn(RawArenaIndex) -> bool, m: RawArenaIndex) -> bool {
        self.nodes.contains_key(m) ==> forall|k: int| 0 <= k < self.n(m) ==> {
            let c = #[trigger] self.nodes[m].ch[k];
            B::cok(c.cache) && (c.arena is Internal && x(c.arena.ix()) || c.cache == self.kc(c.arena))
        }
    }
    #[verifier::opaque]
    spec fn cxs(self, x: spec_fn(RawArenaIndex) -> bool) -> bool { forall|m: RawArenaIndex| #[trigger] self.cxs1(x, m) }
    // from level h upwards c is this tree, but that nodes of height h may have lost children; below, nodes may be gone
    spec fn upp1(self, g: G, c: TS<B>, k: G, h: int, y: RawArenaIndex) -> bool {
        &&& c.nodes.contains_key(y) ==> self.nodes.contains_key(y) && c.nodes[y].par == self.nodes[y].par && c.n(y) <= self.n(y)
        &&& self.nodes.contains_key(y) && (g.ht)(y) >= h ==> c.nodes.contains_key(y) && c.nodes[y].slot == self.nodes[y].slot && (k.pos)(y) == (g.pos)(y)
        &&& self.nodes.contains_key(y) && (g.ht)(y) > h ==> c.nodes[y].ch == self.nodes[y].ch && (k.fst)(y) == (g.fst)(y)
    }
    spec fn sub0(self, c: TS<B>, l: RawArenaIndex) -> bool { c.leaves.contains_key(l) ==> self.leaves.contains_key(l) && c.leaves[l] == self.leaves[l] }
    #[verifier::opaque]
    spec fn upper(self, g: G, c: TS<B>, k: G, h: int) -> bool {
        &&& c.root == self.root && k.ht == g.ht && k.lv.len() == g.lv.len()
        &&& forall|j: int| h <= j < g.lv.len() ==> #[trigger] k.lv[j] == g.lv[j]
        &&& forall|y: RawArenaIndex| #[trigger] self.upp1(g, c, k, h, y)
        &&& forall|l: RawArenaIndex| #[trigger] self.sub0(c, l)
    }
    // the nodes of height h between s and e
    spec fn between(g: G, h: int, s: RawArenaIndex, e: RawArenaIndex, y: RawArenaIndex) -> bool { (g.ht)(y) == h && (g.pos)(s) < (g.pos)(y) < (g.pos)(e) }
    spec fn bare1(self, c: TS<B>, g: G, h: int, s: RawArenaIndex, e: RawArenaIndex, y: RawArenaIndex) -> bool {
        c.nodes.contains_key(y) ==> (c.n(y) == 0 ==> (g.ht)(y) == h && (g.pos)(s) <= (g.pos)(y) <= (g.pos)(e)) && (Self::between(g, h, s, e, y) ==> c.n(y) == 0)
    }
    spec fn gap(g: G, h: int, s: RawArenaIndex, e: RawArenaIndex, x: Set<RawArenaIndex>) -> spec_fn(RawArenaIndex) -> bool {
        |y: RawArenaIndex| x.contains(y) || Self::between(g, h, s, e, y)
    }
    // c is this tree with everything below level h taken out that is to be taken out. What is to be taken out on level h
    // has no children any more, and lies from s to e.
    #[verifier::opaque]
    spec fn drained(self, g: G, c: TS<B>, k: G, h: int, s: RawArenaIndex, e: RawArenaIndex, x: Set<RawArenaIndex>) -> bool {
        &&& c.lnk(k) && self.upper(g, c, k, h)
        &&& self.nodes.contains_key(s) && self.nodes.contains_key(e) && (g.ht)(s) == h && (g.ht)(e) == h && (g.pos)(s) <= (g.pos)(e)
        &&& x.contains(s) && x.contains(e)
        &&& forall|y: RawArenaIndex| #[trigger] self.bare1(c, g, h, s, e, y)
        &&& c.cxs(Self::gap(g, h, s, e, x))
    }
    // taking out the places from a to b of level h, where s and e are the nodes above the two ends
    proof fn lm_chop_step(self, g: G, c: TS<B>, k: G, h: int, a: int, b: int, s: RawArenaIndex, e: RawArenaIndex, x: Set<RawArenaIndex>, f: spec_fn(RawArenaIndex) -> bool, d: TS<B>)
        requires
            self.lnk(g), forall|y: RawArenaIndex| self.nodes.contains_key(y) ==> #[trigger] self.n(y) > 0,
            c.lnk(k), self.upper(g, c, k, h), c.can_chop(k, h, a, b), c.is_chop(d, k, h, a, b),
            self.nodes.contains_key(s), self.nodes.contains_key(e), (g.ht)(s) == h + 1, (g.ht)(e) == h + 1, (g.pos)(s) <= (g.pos)(e),
            (g.fst)(s) <= a <= (g.fst)(s) + self.n(s), (g.fst)(e) <= b <= (g.fst)(e) + self.n(e),
            forall|y: RawArenaIndex| c.nodes.contains_key(y) && #[trigger] c.n(y) == 0 ==> c.chopped(k, h, a, b, ArenaIndex::Internal(y)),
            c.cxs(f), forall|y: RawArenaIndex| #[trigger] f(y) && self.nodes.contains_key(y) ==> x.contains(y) || c.chopped(k, h, a, b, ArenaIndex::Internal(y)),
        ensures self.drained(g, d, g_chop(k, h, a, b), h + 1, s, e, x.insert(s).insert(e))
    {
        reveal(TS::drained); reveal(TS::upper); reveal(TS::cxs);
        let k1 = g_chop(k, h, a, b);
        let x1 = x.insert(s).insert(e);
        let f1 = Self::gap(g, h + 1, s, e, x1);
        c.lm_chop(d, k, h, a, b);
        self.lm_root(g);
        c.lm_chop_at(d, k, h, a, b, s);
        assert forall|y: RawArenaIndex| #[trigger] self.upp1(g, d, k1, h + 1, y) by {
            assert(self.upp1(g, c, k, h, y)); c.lm_chop_at(d, k, h, a, b, y);
            if d.nodes.contains_key(y) { lm_chp(c.nodes[y].ch, (k.fst)(y), a, b); }
        }
        assert forall|l: RawArenaIndex| #[trigger] self.sub0(d, l) by { assert(self.sub0(c, l)); c.lm_chop_at(d, k, h, a, b, l); }
        assert forall|j: int| h + 1 <= j < g.lv.len() implies #[trigger] k1.lv[j] == g.lv[j] by { assert(k.lv[j] == g.lv[j]); }
        // who of height h + 1 lost children
        assert forall|y: RawArenaIndex| d.nodes.contains_key(y) && (g.ht)(y) == h + 1 implies {
            &&& (Self::between(g, h + 1, s, e, y) ==> #[trigger] d.n(y) == 0)
            &&& (d.n(y) == 0 ==> (g.pos)(s) <= (g.pos)(y) <= (g.pos)(e))
            &&& ((g.pos)(y) < (g.pos)(s) || (g.pos)(y) > (g.pos)(e) ==> d.nodes[y].ch == c.nodes[y].ch)
        } by {
            assert(self.upp1(g, c, k, h, y)); c.lm_chop_at(d, k, h, a, b, y);
            self.lm_node(g, y); self.lm_node(g, s); self.lm_node(g, e);
            assert(self.n(y) > 0);
            self.lm_apart(g, s, y); self.lm_apart(g, e, y);
            lm_chp(c.nodes[y].ch, (k.fst)(y), a, b);
            if (g.pos)(y) < (g.pos)(s) || (g.pos)(y) > (g.pos)(e) { assert(d.nodes[y].ch =~= c.nodes[y].ch); }
        }
        assert forall|y: RawArenaIndex| #[trigger] self.bare1(d, g, h + 1, s, e, y) by {
            if d.nodes.contains_key(y) {
                c.lm_chop_at(d, k, h, a, b, y);
                if (g.ht)(y) == h + 1 { assert(d.n(y) >= 0); }
                else if d.n(y) == 0 { assert(c.n(y) == 0); }
            }
        }
        assert forall|m: RawArenaIndex| #[trigger] d.cxs1(f1, m) by {
            if d.nodes.contains_key(m) {
                c.lm_chop_at(d, k, h, a, b, m);
                assert(c.cxs1(f, m));
                lm_chp(c.nodes[m].ch, (k.fst)(m), a, b);
                assert forall|j: int| 0 <= j < d.n(m) implies {
                    let ce = #[trigger] d.nodes[m].ch[j];
                    B::cok(ce.cache) && (ce.arena is Internal && f1(ce.arena.ix()) || ce.cache == d.kc(ce.arena))
                } by {
                    let ce = d.nodes[m].ch[j];
                    d.lm_child(k1, m, j);
                    let lo = cl(a - (k.fst)(m), c.n(m)); let hi = cl(b - (k.fst)(m), c.n(m));
                    let i = if (g.ht)(m) == h + 1 && j >= lo { j + (hi - lo) } else { j };
                    assert(c.nodes[m].ch[i] == ce);
                    let z = ce.arena.ix();
                    c.lm_chop_at(d, k, h, a, b, z);
                    if ce.arena is Internal {
                        assert(self.upp1(g, d, k1, h + 1, z));
                        if !f(z) && !f1(z) {
                            if (g.ht)(z) == h + 1 {
                                assert(d.n(z) >= 0);
                                if z != s && (g.pos)(z) == (g.pos)(s) { self.lm_order(g, z, s); }
                                if z != e && (g.pos)(z) == (g.pos)(e) { self.lm_order(g, z, e); }
                                assert((g.pos)(z) < (g.pos)(s) || (g.pos)(z) > (g.pos)(e));
                            }
                            assert(d.nodes[z].ch == c.nodes[z].ch);
                        }
                    }
                }
            }
        }
    }
}
impl<B: BTreeTrait> TS<B> {
    // the nodes as they are while draining: nodes that are to go are still there, and may list what is gone
    spec fn lag1(self, o: TS<B>, g: G, c: TS<B>, h: int, s: RawArenaIndex, e: RawArenaIndex, del: Seq<ArenaIndex>, y: RawArenaIndex) -> bool {
        &&& self.nodes.contains_key(y) == o.nodes.contains_key(y)
        &&& c.nodes.contains_key(y) ==> self.nodes[y].par == c.nodes[y].par && self.nodes[y].slot == c.nodes[y].slot
                && self.nodes[y].ch == if Self::between(g, h, s, e, y) { o.nodes[y].ch } else { c.nodes[y].ch }
        &&& o.nodes.contains_key(y) && !c.nodes.contains_key(y) ==> {
            let p = o.par(ArenaIndex::Internal(y));
            &&& self.nodes[y].ch == o.nodes[y].ch || self.n(y) == 0
            &&& del.contains(ArenaIndex::Internal(y)) || (!c.nodes.contains_key(p) || Self::between(g, h, s, e, p)) && self.nodes[p].ch == o.nodes[p].ch
        }
    }
    spec fn del1(o: TS<B>, c: TS<B>, a: ArenaIndex) -> bool { a is Internal && o.nodes.contains_key(a.ix()) && !c.nodes.contains_key(a.ix()) }
    #[verifier::opaque]
    spec fn lag(self, o: TS<B>, g: G, c: TS<B>, h: int, s: RawArenaIndex, e: RawArenaIndex, del: Seq<ArenaIndex>) -> bool {
        &&& self.root == o.root && self.leaves == c.leaves
        &&& forall|y: RawArenaIndex| #[trigger] self.lag1(o, g, c, h, s, e, del, y)
        &&& forall|i: int| 0 <= i < del.len() ==> Self::del1(o, c, #[trigger] del[i])
    }
    // c1 is c without the places from a to b of level h, which are listed in del1 or children of nodes between s1 and e1
    spec fn lagging(self, t: TS<B>, o: TS<B>, c1: TS<B>, s1: RawArenaIndex, e1: RawArenaIndex, y: RawArenaIndex) -> bool {
        &&& self.nodes.contains_key(y) == t.nodes.contains_key(y)
        &&& t.nodes.contains_key(y) ==> self.nodes[y].par == t.nodes[y].par && self.nodes[y].ch == (if y == s1 || y == e1 { c1.nodes[y].ch } else { t.nodes[y].ch })
        &&& c1.nodes.contains_key(y) ==> self.nodes[y].slot == c1.nodes[y].slot
    }
    proof fn lm_lag_step(self, t: TS<B>, o: TS<B>, g: G, c: TS<B>, k: G, h: int, s: RawArenaIndex, e: RawArenaIndex, x: Set<RawArenaIndex>, del: Seq<ArenaIndex>, a: int, b: int,
        c1: TS<B>, s1: RawArenaIndex, e1: RawArenaIndex, x1: Set<RawArenaIndex>, more: Seq<ArenaIndex>)
        requires
            o.lnk(g), o.drained(g, c, k, h, s, e, x), t.lag(o, g, c, h, s, e, del), h >= 1,
            c.can_chop(k, h, a, b), c.is_chop(c1, k, h, a, b), o.drained(g, c1, g_chop(k, h, a, b), h + 1, s1, e1, x1),
            a <= (g.pos)(s) + 1, (g.pos)(e) <= b,
            self.root == t.root, self.leaves == t.leaves, forall|y: RawArenaIndex| #[trigger] self.lagging(t, o, c1, s1, e1, y),
            forall|i: int| a <= i < b && (o.par(ArenaIndex::Internal(#[trigger] g.lv[h][i])) == s1 || o.par(ArenaIndex::Internal(g.lv[h][i])) == e1) ==> more.contains(ArenaIndex::Internal(g.lv[h][i])),
            forall|i: int| 0 <= i < more.len() ==> exists|j: int| a <= j < b && #[trigger] more[i] == ArenaIndex::Internal(#[trigger] g.lv[h][j]),
            // the stretch lies below the nodes from s1 to e1
            forall|i: int| a <= i < b ==> (g.pos)(s1) <= (g.pos)(o.par(ArenaIndex::Internal(#[trigger] g.lv[h][i]))) <= (g.pos)(e1),
        ensures self.lag(o, g, c1, h + 1, s1, e1, del + more)
    {
        reveal(TS::lag); reveal(TS::drained); reveal(TS::upper);
        let k1 = g_chop(k, h, a, b);
        let all = del + more;
        o.lm_root(g);
        assert(k.lv[h] == g.lv[h]);
        assert(o.upp1(g, c, k, h, s)); assert(o.upp1(g, c, k, h, e));
        c.lm_node(k, s); c.lm_node(k, e);
        assert forall|l: RawArenaIndex| c1.leaves.contains_key(l) == c.leaves.contains_key(l) && (c.leaves.contains_key(l) ==> #[trigger] c1.leaves[l] == c.leaves[l]) by { c.lm_chop_at(c1, k, h, a, b, l); }
        assert forall|l: RawArenaIndex| #[trigger] c1.leaves.contains_key(l) == c.leaves.contains_key(l) by { c.lm_chop_at(c1, k, h, a, b, l); }
        assert(c1.leaves =~= c.leaves);
        assert forall|i: int| 0 <= i < all.len() implies Self::del1(o, c1, #[trigger] all[i]) by {
            if i < del.len() {
                assert(Self::del1(o, c, del[i]));
                c.lm_chop_at(c1, k, h, a, b, del[i].ix());
            } else {
                let m = more[i - del.len()];
                let j = choose|j: int| a <= j < b && m == ArenaIndex::Internal(#[trigger] g.lv[h][j]);
                o.lm_at(g, h, j);
                c.lm_at(k, h, j);
                c.lm_chop_at(c1, k, h, a, b, m.ix());
                assert(c.chopped(k, h, a, b, m));
            }
        }
        assert forall|y: RawArenaIndex| #[trigger] self.lag1(o, g, c1, h + 1, s1, e1, all, y) by {
            assert(self.lagging(t, o, c1, s1, e1, y));
            assert(t.lag1(o, g, c, h, s, e, del, y));
            c.lm_chop_at(c1, k, h, a, b, y);
            assert(o.upp1(g, c, k, h, y));
            assert(o.upp1(g, c1, k1, h + 1, y));
            if c1.nodes.contains_key(y) {
                c.lm_node(k, y); c1.lm_node(k1, y); o.lm_node(g, y);
                if Self::between(g, h, s, e, y) { assert(c.chopped(k, h, a, b, ArenaIndex::Internal(y))); }
                if (g.ht)(y) == h + 1 { lm_chp(c.nodes[y].ch, (k.fst)(y), a, b); }
                if (g.ht)(y) == h + 1 && y != s1 && y != e1 {
                    assert(t.nodes[y].ch == o.nodes[y].ch);
                    if !Self::between(g, h + 1, s1, e1, y) {
                        o.lm_apart(g, s1, y); o.lm_apart(g, e1, y);
                        // no child of y is in the stretch
                        assert(c1.nodes[y].ch =~= c.nodes[y].ch) by {
                            let lo = cl(a - (k.fst)(y), c.n(y)); let hi = cl(b - (k.fst)(y), c.n(y));
                            if lo < hi {
                                let i = (k.fst)(y) + lo;
                                o.lm_child(g, y, lo);
                                assert(g.lv[h][i] == o.nodes[y].ch[lo].arena.ix());
                            }
                        }
                    }
                }
            }
            if o.nodes.contains_key(y) && !c1.nodes.contains_key(y) {
                let ya = ArenaIndex::Internal(y);
                let p = o.par(ya);
                assert(y != s1 && y != e1);
                if c.nodes.contains_key(y) {
                    // y is in the stretch
                    let i = (k.pos)(y);
                    assert(c.chopped(k, h, a, b, ya));
                    o.lm_node(g, y);
                    assert(g.lv[h][i] == y);
                    assert(c.n(y) == 0) by { assert(c.n(k.lv[h][i]) == 0); }
                    o.lm_par(g, ya);
                    if p == s1 || p == e1 {
                        assert(more.contains(ya));
                        let j = choose|j: int| 0 <= j < more.len() && more[j] == ya;
                        assert(all[del.len() + j] == ya);
                    } else {
                        if (g.pos)(p) == (g.pos)(s1) { o.lm_order(g, p, s1); }
                        if (g.pos)(p) == (g.pos)(e1) { o.lm_order(g, p, e1); }
                        assert(Self::between(g, h + 1, s1, e1, p));
                        assert(self.lagging(t, o, c1, s1, e1, p));
                        assert(t.lag1(o, g, c, h, s, e, del, p));
                        assert(o.upp1(g, c, k, h, p));
                    }
                } else {
                    if del.contains(ya) {
                        let j = choose|j: int| 0 <= j < del.len() && del[j] == ya;
                        assert(all[j] == ya);
                    } else {
                        assert(self.lagging(t, o, c1, s1, e1, p));
                        assert(t.lag1(o, g, c, h, s, e, del, p));
                        c.lm_chop_at(c1, k, h, a, b, p);
                        if y != o.rt() { o.lm_par(g, ya); } else { assert(o.upp1(g, c, k, h, y)); }
                        if Self::between(g, h, s, e, p) {
                            assert(o.upp1(g, c, k, h, p));
                            assert(c.chopped(k, h, a, b, ArenaIndex::Internal(p)));
                        }
                        assert(!c1.nodes.contains_key(p));
                        assert(p != s1 && p != e1);
                    }
                }
            }
        }
    }
    // at the end: what is not in c is below the nodes listed
    spec fn dead(self, c: TS<B>) -> Set<RawArenaIndex> { self.nodes.dom().difference(c.nodes.dom()) }
    proof fn lm_dead(self, o: TS<B>, g: G, c: TS<B>, k: G, h: int, s: RawArenaIndex, x: Set<RawArenaIndex>, del: Seq<ArenaIndex>)
        requires o.lnk(g), o.drained(g, c, k, h, s, s, x), self.lag(o, g, c, h, s, s, del)
        ensures self.shut(self.dead(c)), forall|i: int| 0 <= i < del.len() ==> (#[trigger] del[i]) is Internal && self.dead(c).contains(del[i].ix()),
    {
        reveal(TS::lag); reveal(TS::drained); reveal(TS::upper); reveal(TS::shut);
        let w = self.dead(c);
        assert forall|i: int| 0 <= i < del.len() implies (#[trigger] del[i]) is Internal && w.contains(del[i].ix()) by {
            assert(Self::del1(o, c, del[i])); assert(self.lag1(o, g, c, h, s, s, del, del[i].ix()));
        }
        assert forall|y: RawArenaIndex| #[trigger] self.shut1(w, y) by {
            assert(self.lag1(o, g, c, h, s, s, del, y));
            if w.contains(y) && self.nodes.contains_key(y) {
                assert forall|j: int| 0 <= j < self.n(y) implies match (#[trigger] self.nodes[y].ch[j]).arena {
                    ArenaIndex::Internal(z) => w.contains(z),
                    ArenaIndex::Leaf(l) => !self.leaves.contains_key(l),
                } by {
                    o.lm_child(g, y, j);
                    let a = o.nodes[y].ch[j].arena;
                    match a {
                        ArenaIndex::Internal(z) => {
                            assert(self.lag1(o, g, c, h, s, s, del, z));
                            assert(o.upp1(g, c, k, h, z));
                            if c.nodes.contains_key(z) { c.lm_root(k); c.lm_node(k, z); c.lm_par(k, a); }
                        }
                        ArenaIndex::Leaf(l) => { assert(o.sub0(c, l)); if c.leaves.contains_key(l) { c.lm_leaf(k, l); } }
                    }
                }
            }
        }
    }
    proof fn lm_swept_trans(self, u: TS<B>, t: TS<B>, s: Set<RawArenaIndex>)
        requires self.swept(u, s), u.swept(t, s)
        ensures self.swept(t, s)
    {
        reveal(TS::swept);
        assert forall|y: RawArenaIndex| #[trigger] self.swept1(t, s, y) by {
            assert(self.swept1(u, s, y)); assert(u.swept1(t, s, y));
            if t.nodes.contains_key(y) && !self.nodes.contains_key(y) {
                assert forall|k: int| 0 <= k < t.n(y) implies match (#[trigger] t.nodes[y].ch[k]).arena { ArenaIndex::Internal(z) => !self.nodes.contains_key(z), _ => true } by {
                    match t.nodes[y].ch[k].arena { ArenaIndex::Internal(z) => { assert(self.swept1(u, s, z)); if u.nodes.contains_key(y) { assert(u.nodes[y].ch[k] == t.nodes[y].ch[k]); } }, _ => {} }
                }
            }
        }
    }
    proof fn lm_swept_shut(self, t: TS<B>, s: Set<RawArenaIndex>)
        requires self.swept(t, s), t.shut(s)
        ensures self.shut(s)
    {
        reveal(TS::swept); reveal(TS::shut);
        assert forall|y: RawArenaIndex| #[trigger] self.shut1(s, y) by { assert(self.swept1(t, s, y)); assert(t.shut1(s, y)); }
    }
    // so they are all gone when those listed are
    proof fn lm_gone_up(self, t: TS<B>, o: TS<B>, g: G, c: TS<B>, k: G, h: int, s: RawArenaIndex, x: Set<RawArenaIndex>, del: Seq<ArenaIndex>, y: RawArenaIndex)
        requires o.lnk(g), o.drained(g, c, k, h, s, s, x), t.lag(o, g, c, h, s, s, del), self.swept(t, t.dead(c)),
            forall|i: int| 0 <= i < del.len() ==> !self.nodes.contains_key((#[trigger] del[i]).ix()), t.nodes.contains_key(y), !c.nodes.contains_key(y)
        ensures !self.nodes.contains_key(y)
        decreases g.lv.len() - (g.ht)(y)
    {
        reveal(TS::lag); reveal(TS::drained); reveal(TS::upper); reveal(TS::swept);
        let ya = ArenaIndex::Internal(y);
        assert(t.lag1(o, g, c, h, s, s, del, y));
        if !del.contains(ya) {
            assert(o.upp1(g, c, k, h, y));
            c.lm_root(k);
            assert(y != o.rt());
            let p = o.par(ya);
            o.lm_par(g, ya);
            o.lm_node(g, p);
            assert(t.lag1(o, g, c, h, s, s, del, p));
            self.lm_gone_up(t, o, g, c, k, h, s, x, del, p);
            assert(self.swept1(t, t.dead(c), p));
            assert(t.nodes[p].ch[(g.pos)(y) - (g.fst)(p)].arena == ya);
        } else {
            let i = choose|i: int| 0 <= i < del.len() && del[i] == ya;
            assert(!self.nodes.contains_key(del[i].ix()));
        }
    }
    proof fn lm_purged(self, t: TS<B>, o: TS<B>, g: G, c: TS<B>, k: G, h: int, s: RawArenaIndex, x: Set<RawArenaIndex>, del: Seq<ArenaIndex>)
        requires o.lnk(g), o.drained(g, c, k, h, s, s, x), t.lag(o, g, c, h, s, s, del), self.swept(t, t.dead(c)),
            forall|i: int| 0 <= i < del.len() ==> !self.nodes.contains_key((#[trigger] del[i]).ix()),
        ensures self == c
    {
        assert forall|y: RawArenaIndex| #[trigger] self.nodes.contains_key(y) == c.nodes.contains_key(y) && (c.nodes.contains_key(y) ==> self.nodes[y] == c.nodes[y]) by {
            if t.nodes.contains_key(y) && !c.nodes.contains_key(y) { self.lm_gone_up(t, o, g, c, k, h, s, x, del, y); }
            reveal(TS::lag); reveal(TS::swept); reveal(TS::drained); reveal(TS::upper);
            assert(t.lag1(o, g, c, h, s, s, del, y));
            assert(self.swept1(t, t.dead(c), y));
            assert(o.upp1(g, c, k, h, y));
        }
        reveal(TS::lag); reveal(TS::swept); reveal(TS::drained); reveal(TS::upper);
        assert(self.nodes =~= c.nodes);
    }
}
