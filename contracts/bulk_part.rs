// Building a tree from many elements, inserting many. (C03, C04, C05, C07, C13, C16)
//@ rw impl Iterator<Item = B::Elem> ==> VxIter<B::Elem>
//@ rw for elem in data_iter { ==> while let Some(elem) = data_iter.next() {
//@ rw for item in data.drain(inserted..).rev() { ==> let mut vx_k = data.len(); while vx_k > inserted { vx_k = vx_k - 1; let item = vx_clone(&data[vx_k]);
//@ rw if let Some(left) = left_neighbour.filter(|_| $$c) { ==> if let Some(left) = (if $$c { left_neighbour } else { None }) {
//@ rw $i_c.expect($s) ==> $i_c.unwrap()
//@ rw for elem in data.drain(..) { ==> for vx_i in 0..data.len() { let elem = vx_clone(&data[vx_i]);
//@ rw match merged.last_mut() { Some(last) if $$c => $$m, _ => $$p, } ==> let vx_n = merged.len(); if vx_n > 0 && { let last = &merged[vx_n - 1]; $$c } { let last = &mut merged[vx_n - 1]; $$m; } else { $$p; }
//@ rw E: Mergeable + Debug ==> E: Mergeable
//@ rw for elem in data.into_iter().chunks(max_child_size).into_iter() { $$body } ==> let vx_n = data.len(); let mut vx_c = 0usize; while vx_c < vx_n { let vx_e = if vx_n - vx_c > max_child_size { vx_c + max_child_size } else { vx_n }; $$body vx_c = vx_e; }
//@ rw for elem in elem { $$body } ==> let mut vx_i = vx_c; while vx_i < vx_e { let elem = vx_clone(&data[vx_i]); $$body vx_i = vx_i + 1; }
//@ rw for chunk in nodes.into_iter().chunks(max_child_size).into_iter() { $$body } ==> let vx_n = nodes.len(); let mut vx_c = 0usize; while vx_c < vx_n { let vx_e = if vx_n - vx_c > max_child_size { vx_c + max_child_size } else { vx_n }; $$body vx_c = vx_e; }
//@ rw for (i, child_idx) in chunk.enumerate() { ==> for i in 0..vx_e - vx_c { let child_idx = nodes[vx_c + i];

spec fn contents<E: HasLength>(s: Seq<E>) -> Seq<Seq<E::Unit>> { s.map_values(|e: E| e.content()) }
spec fn text<E: HasLength>(s: Seq<E>) -> Seq<E::Unit> { flat(contents(s)) }
proof fn lm_text_push<E: HasLength>(s: Seq<E>, e: E)
    ensures text(s.push(e)) == text(s) + e.content()
{
    assert(contents(s.push(e)).drop_last() =~= contents(s));
    assert(contents(s.push(e)).last() == e.content());
}
proof fn lm_text_front<E: HasLength>(s: Seq<E>, i: int)
    requires 0 <= i < s.len()
    ensures text(s.subrange(i, s.len() as int)) == s[i].content() + text(s.subrange(i + 1, s.len() as int))
{
    let a = seq![s[i].content()];
    let b = contents(s.subrange(i + 1, s.len() as int));
    assert(contents(s.subrange(i, s.len() as int)) =~= a + b);
    lm_flat_cat(a, b);
    lm_flat1(s[i].content());
}
proof fn lm_text_cat<E: HasLength>(s: Seq<E>, i: int)
    requires 0 <= i <= s.len()
    ensures text(s) == text(s.subrange(0, i)) + text(s.subrange(i, s.len() as int))
{
    assert(contents(s) =~= contents(s.subrange(0, i)) + contents(s.subrange(i, s.len() as int)));
    lm_flat_cat(contents(s.subrange(0, i)), contents(s.subrange(i, s.len() as int)));
}
proof fn lm_text0<E: HasLength>(s: Seq<E>)
    requires s.len() == 0
    ensures text(s) == Seq::<E::Unit>::empty()
{ assert(contents(s) =~= Seq::<Seq<E::Unit>>::empty()); assert(text(s) =~= Seq::<E::Unit>::empty()); }
proof fn lm_text1<E: HasLength>(s: Seq<E>)
    requires s.len() == 1
    ensures text(s) == s[0].content()
{ assert(contents(s) =~= seq![s[0].content()]); lm_flat1(s[0].content()); }
proof fn lm_assoc2<T>(a: Seq<T>)
    ensures a + Seq::<T>::empty() == a
{ assert(a + Seq::<T>::empty() =~= a); }
spec fn good<E: HasLength>(s: Seq<E>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok() }

//@ code src/lib.rs "fn merge_adj" tags=C03,C13,C16
fn merge_adj<E: Mergeable>(data: &mut Vec<E>)
«    requires good(old(data)@)
    ensures good(final(data)@), /*C03 C13*/ text(final(data)@) == text(old(data)@), old(data)@.len() > 0 ==> 0 < final(data)@.len() <= old(data)@.len()»
{
    let mut merged: Vec<E> = Vec::with_capacity(data.len());
    «proof { lm_text0(merged@); lm_text0(data@.subrange(0, 0)); }»
    for vx_i in 0..data.len()
        «invariant good(data@), good(merged@), text(merged@) == text(data@.subrange(0, vx_i as int)), merged@.len() <= vx_i, vx_i > 0 ==> merged@.len() > 0, *data == *old(data)»
    {
        let elem = vx_clone(&data[vx_i]);
        «let ghost m0 = merged@; proof { lm_text_push(data@.subrange(0, vx_i as int), elem); assert(data@.subrange(0, vx_i as int).push(elem) =~= data@.subrange(0, vx_i + 1)); }»
        let vx_n = merged.len();
        if vx_n > 0 && {
            let last = &merged[vx_n - 1];
            last.can_merge(&elem)
        } {
            let last = &mut merged[vx_n - 1];
            last.merge_right(&elem);
            «proof {
                lm_text_push(m0.drop_last(), m0.last()); lm_text_push(m0.drop_last(), merged@.last());
                assert(m0 =~= m0.drop_last().push(m0.last())); assert(merged@ =~= m0.drop_last().push(merged@.last()));
                assert(text(merged@) =~= text(m0) + elem.content());
            }»
        } else {
            merged.push(elem);
            «proof { lm_text_push(m0, elem); }»
        }
    }
    «proof { assert(data@.subrange(0, data@.len() as int) =~= data@); }»
    *data = merged;
}
//@ end

// A forest being built level by level: w is the level under construction, the first d nodes (or leaves) of the level
// below have a parent already. self.root does not matter.
spec fn g_push(g: G, w: int, m: RawArenaIndex, d: int) -> G {
    G {
        lv: g.lv.update(w, g.lv[w].push(m)),
        ht: |x: RawArenaIndex| if x == m { w } else { (g.ht)(x) },
        pos: |x: RawArenaIndex| if x == m { g.lv[w].len() as int } else { (g.pos)(x) },
        fst: |x: RawArenaIndex| if x == m { d } else { (g.fst)(x) },
        lpos: g.lpos,
    }
}
spec fn g_leaf(g: G, l: RawArenaIndex) -> G {
    G {
        lv: g.lv.update(0, g.lv[0].push(l)),
        lpos: |x: RawArenaIndex| if x == l { g.lv[0].len() as int } else { (g.lpos)(x) },
        ..g
    }
}
spec fn g_level(g: G) -> G { G { lv: g.lv.push(Seq::empty()), ..g } }
spec fn g_bare() -> G {
    G {
        lv: seq![Seq::<RawArenaIndex>::empty(), Seq::<RawArenaIndex>::empty()],
        ht: |m: RawArenaIndex| 0int, pos: |m: RawArenaIndex| 0int, fst: |m: RawArenaIndex| 0int, lpos: |m: RawArenaIndex| 0int,
    }
}
impl<B: BTreeTrait> TS<B> {
    spec fn b_cover(self, g: G, w: int, d: int, m: RawArenaIndex) -> bool {
        let h = (g.ht)(m);
        let e = (g.fst)(m) + self.n(m);
        &&& 0 <= (g.fst)(m) && e <= g.lv[h - 1].len()
        &&& (g.pos)(m) == 0 ==> (g.fst)(m) == 0
        &&& (g.pos)(m) + 1 == g.lv[h].len() ==> e == (if h == w { d } else { g.lv[h - 1].len() as int })
        &&& (g.pos)(m) + 1 < g.lv[h].len() ==> (g.fst)(g.lv[h][(g.pos)(m) + 1]) == e
    }
    spec fn b_link(self, g: G, w: int, d: int, m: RawArenaIndex) -> bool {
        let h = (g.ht)(m);
        if h == w || h == w - 1 && (g.pos)(m) >= d { self.nodes[m].par is None } else {
            let p = self.nodes[m].par->0.ix();
            &&& self.nodes[m].par == Some(ArenaIndex::Internal(p))
            &&& self.nodes.contains_key(p) && (g.ht)(p) == h + 1
            &&& self.nodes[m].slot < self.n(p) && (g.fst)(p) + self.nodes[m].slot == (g.pos)(m)
        }
    }
    spec fn b_node(self, g: G, w: int, d: int, m: RawArenaIndex) -> bool {
        self.nodes.contains_key(m) ==> {
            &&& self.place_ok(g, m) && self.b_cover(g, w, d, m) && self.kids_ok(g, m) && self.b_link(g, w, d, m) && self.cache_ok(m)
            &&& self.n(m) < MAX_CHILDREN_NUM && (self.n(m) > 0 || (g.ht)(m) == w && (g.pos)(m) + 1 == g.lv[w].len())
        }
    }
    #[verifier::opaque]
    spec fn bld(self, g: G, w: int, d: int) -> bool {
        &&& w >= 1 && g.lv.len() == w + 1 && 0 <= d <= g.lv[w - 1].len() && (w == 1 ==> d == g.lv[0].len()) && (g.lv[w].len() == 0 ==> d == 0)
        &&& forall|h: int, i: int| #[trigger] self.lvl_ok(g, h, i)
        &&& forall|i: int| #[trigger] self.lfl_ok(g, i)
        &&& forall|m: RawArenaIndex| #[trigger] self.b_node(g, w, d, m)
        &&& forall|l: RawArenaIndex| #[trigger] self.leaf_ok(g, l)
        &&& forall|l: RawArenaIndex| #[trigger] self.elem_ok(l)
    }
    // a new parent on level w
    spec fn b_add(self, m: RawArenaIndex, s: u8) -> TS<B> { TS { nodes: self.nodes.insert(m, NodeS { par: None, slot: s, ch: Seq::empty() }), ..self } }
    // a new leaf under it
    spec fn b_leaf(self, p: RawArenaIndex, l: RawArenaIndex, e: B::Elem) -> TS<B> {
        TS {
            nodes: self.nodes.insert(p, NodeS { ch: self.nodes[p].ch.push(Child { arena: ArenaIndex::Leaf(l), cache: B::ec(e) }), ..self.nodes[p] }),
            leaves: self.leaves.insert(l, LeafNode { elem: e, parent: p }),
            ..self
        }
    }
    // or a node of the level below
    spec fn b_child(self, p: RawArenaIndex, c: RawArenaIndex) -> TS<B> {
        TS {
            nodes: self.nodes.insert(p, NodeS { ch: self.nodes[p].ch.push(Child { arena: ArenaIndex::Internal(c), cache: B::sum(self.kids(c)) }), ..self.nodes[p] })
                .insert(c, NodeS { par: Some(ArenaIndex::Internal(p)), slot: self.n(p) as u8, ch: self.nodes[c].ch }),
            ..self
        }
    }
    proof fn lm_b(self, g: G, w: int, d: int, m: RawArenaIndex)
        requires self.bld(g, w, d), self.nodes.contains_key(m)
        ensures self.b_node(g, w, d, m)
    { reveal(TS::bld); assert(self.b_node(g, w, d, m)); }
    proof fn lm_b_dims(self, g: G, w: int, d: int)
        requires self.bld(g, w, d)
        ensures w >= 1 && g.lv.len() == w + 1 && 0 <= d <= g.lv[w - 1].len() && (w == 1 ==> d == g.lv[0].len()) && (g.lv[w].len() == 0 ==> d == 0)
    { reveal(TS::bld); }
    proof fn lm_b_at(self, g: G, w: int, d: int, h: int, i: int)
        requires self.bld(g, w, d), 1 <= h <= w, 0 <= i < g.lv[h].len()
        ensures ({ let m = g.lv[h][i]; self.nodes.contains_key(m) && (g.ht)(m) == h && (g.pos)(m) == i && self.b_node(g, w, d, m) })
    { reveal(TS::bld); assert(self.lvl_ok(g, h, i)); assert(self.b_node(g, w, d, g.lv[h][i])); }
    proof fn lm_b_bare(root: ArenaIndex)
        ensures (TS::<B> { nodes: Map::empty(), leaves: Map::empty(), root }).bld(g_bare(), 1, 0)
    { reveal(TS::bld); }
    proof fn lm_b_add(self, g: G, w: int, d: int, m: RawArenaIndex, s: u8)
        requires self.bld(g, w, d), !self.nodes.contains_key(m), g.lv[w].len() > 0 ==> self.n(g.lv[w].last()) > 0
        ensures self.b_add(m, s).bld(g_push(g, w, m, d), w, d)
    {
        reveal(TS::bld);
        let t = self.b_add(m, s);
        let g1 = g_push(g, w, m, d);
        assert forall|h: int, i: int| #[trigger] t.lvl_ok(g1, h, i) by { assert(self.lvl_ok(g, h, i)); }
        assert forall|i: int| #[trigger] t.lfl_ok(g1, i) by { assert(self.lfl_ok(g, i)); }
        assert forall|x: RawArenaIndex| #[trigger] t.b_node(g1, w, d, x) by {
            assert(self.b_node(g, w, d, x));
            if t.nodes.contains_key(x) {
                if x != m {
                    assert(t.nodes[x] == self.nodes[x]);
                    if (g.ht)(x) == w && (g.pos)(x) + 1 < g.lv[w].len() { assert(self.lvl_ok(g, w, (g.pos)(x) + 1)); }
                    if (g.ht)(x) < w && (g.pos)(x) + 1 < g.lv[(g.ht)(x)].len() { assert(self.lvl_ok(g, (g.ht)(x), (g.pos)(x) + 1)); }
                    assert(t.b_cover(g1, w, d, x));
                    assert(t.kids_ok(g1, x)) by {
                        assert forall|j: int| 0 <= j < t.n(x) implies (#[trigger] t.nodes[x].ch[j]).arena == aix(g1, (g1.ht)(x) - 1, (g1.fst)(x) + j) by {
                            assert(self.nodes[x].ch[j].arena == aix(g, (g.ht)(x) - 1, (g.fst)(x) + j));
                        }
                    }
                    assert(t.cache_ok(x)) by { self.lm_b_cache(t, g, w, d, x); }
                }
            }
        }
        assert forall|l: RawArenaIndex| #[trigger] t.leaf_ok(g1, l) by { assert(self.leaf_ok(g, l)); }
        assert forall|l: RawArenaIndex| #[trigger] t.elem_ok(l) by { assert(self.elem_ok(l)); }
    }
    // the entries of a node stay right when its children keep theirs
    proof fn lm_b_cache(self, t: TS<B>, g: G, w: int, d: int, x: RawArenaIndex)
        requires self.bld(g, w, d), self.nodes.contains_key(x), t.nodes.contains_key(x), t.nodes[x].ch == self.nodes[x].ch,
            forall|y: RawArenaIndex| self.nodes.contains_key(y) && (g.ht)(y) < w ==> t.kids(y) == self.kids(y),
            forall|l: RawArenaIndex| self.leaves.contains_key(l) ==> t.leaves[l] == self.leaves[l],
        ensures t.cache_ok(x)
    {
        reveal(TS::bld);
        assert(self.b_node(g, w, d, x));
        let h = (g.ht)(x);
        assert forall|k: int| 0 <= k < t.n(x) implies {
            let c = #[trigger] t.nodes[x].ch[k];
            B::cok(c.cache) && c.cache == t.kc(c.arena)
        } by {
            let c = self.nodes[x].ch[k];
            assert(c == t.nodes[x].ch[k]);
            assert(c.arena == aix(g, h - 1, (g.fst)(x) + k));
            if h == 1 { assert(self.lfl_ok(g, (g.fst)(x) + k)); } else { assert(self.lvl_ok(g, h - 1, (g.fst)(x) + k)); }
        }
    }
    proof fn lm_b_leaf(self, g: G, d: int, p: RawArenaIndex, l: RawArenaIndex, e: B::Elem)
        requires self.bld(g, 1, d), g.lv[1].len() > 0, p == g.lv[1].last(), self.n(p) + 1 < MAX_CHILDREN_NUM, !self.leaves.contains_key(l), e.ok()
        ensures self.b_leaf(p, l, e).bld(g_leaf(g, l), 1, d + 1), self.nodes.contains_key(p)
    {
        reveal(TS::bld);
        let t = self.b_leaf(p, l, e);
        let g1 = g_leaf(g, l);
        self.lm_b_at(g, 1, d, 1, g.lv[1].len() - 1);
        B::law_cok(e);
        assert forall|h: int, i: int| #[trigger] t.lvl_ok(g1, h, i) by { assert(self.lvl_ok(g, h, i)); }
        assert forall|i: int| #[trigger] t.lfl_ok(g1, i) by { assert(self.lfl_ok(g, i)); }
        assert forall|x: RawArenaIndex| #[trigger] t.b_node(g1, 1, d + 1, x) by {
            assert(self.b_node(g, 1, d, x));
            if t.nodes.contains_key(x) {
                if (g.pos)(x) + 1 < g.lv[1].len() { assert(self.lvl_ok(g, 1, (g.pos)(x) + 1)); }
                assert(t.place_ok(g1, x));
                assert(t.b_cover(g1, 1, d + 1, x));
                assert(t.kids_ok(g1, x)) by {
                    assert forall|j: int| 0 <= j < t.n(x) implies (#[trigger] t.nodes[x].ch[j]).arena == aix(g1, (g1.ht)(x) - 1, (g1.fst)(x) + j) by {
                        if j < self.n(x) { assert(self.nodes[x].ch[j].arena == aix(g, (g.ht)(x) - 1, (g.fst)(x) + j)); }
                    }
                }
                if x != p { self.lm_b_cache(t, g, 1, d, x); }
                else {
                    assert forall|k: int| 0 <= k < t.n(x) implies {
                        let c = #[trigger] t.nodes[x].ch[k];
                        B::cok(c.cache) && c.cache == t.kc(c.arena)
                    } by {
                        if k < self.n(p) {
                            let c = self.nodes[x].ch[k];
                            assert(c == t.nodes[x].ch[k]);
                            assert(c.arena == aix(g, 0, (g.fst)(x) + k));
                            assert(self.lfl_ok(g, (g.fst)(x) + k));
                        }
                    }
                }
            }
        }
        assert forall|y: RawArenaIndex| #[trigger] t.leaf_ok(g1, y) by { assert(self.leaf_ok(g, y)); }
        assert forall|y: RawArenaIndex| #[trigger] t.elem_ok(y) by { assert(self.elem_ok(y)); }
    }
    proof fn lm_b_child(self, g: G, w: int, d: int, p: RawArenaIndex, c: RawArenaIndex)
        requires self.bld(g, w, d), w >= 2, d < g.lv[w - 1].len(), c == g.lv[w - 1][d], g.lv[w].len() > 0, p == g.lv[w].last(), self.n(p) + 1 < MAX_CHILDREN_NUM
        ensures self.b_child(p, c).bld(g, w, d + 1), self.nodes.contains_key(p), self.nodes.contains_key(c), p != c, self.cache_ok(c), self.n(c) > 0
    {
        reveal(TS::bld);
        let t = self.b_child(p, c);
        self.lm_b_at(g, w, d, w, g.lv[w].len() - 1);
        self.lm_b_at(g, w, d, w - 1, d);
        assert(self.kids(c).len() == self.n(c));
        assert forall|i: int| 0 <= i < self.kids(c).len() implies B::cok(#[trigger] self.kids(c)[i]) by { assert(self.kids(c)[i] == self.nodes[c].ch[i].cache); }
        B::law_cok_sum(self.kids(c));
        assert forall|h: int, i: int| #[trigger] t.lvl_ok(g, h, i) by { assert(self.lvl_ok(g, h, i)); }
        assert forall|i: int| #[trigger] t.lfl_ok(g, i) by { assert(self.lfl_ok(g, i)); }
        assert forall|x: RawArenaIndex| #[trigger] t.b_node(g, w, d + 1, x) by {
            assert(self.b_node(g, w, d, x));
            if t.nodes.contains_key(x) {
                let h = (g.ht)(x);
                if (g.pos)(x) + 1 < g.lv[h].len() { assert(self.lvl_ok(g, h, (g.pos)(x) + 1)); }
                assert(t.place_ok(g, x));
                assert(t.b_cover(g, w, d + 1, x));
                assert(t.kids_ok(g, x)) by {
                    assert forall|j: int| 0 <= j < t.n(x) implies (#[trigger] t.nodes[x].ch[j]).arena == aix(g, h - 1, (g.fst)(x) + j) by {
                        if j < self.n(x) { assert(self.nodes[x].ch[j].arena == aix(g, h - 1, (g.fst)(x) + j)); }
                    }
                }
                if x != p { self.lm_b_cache(t, g, w, d, x); }
                else {
                    assert forall|k: int| 0 <= k < t.n(x) implies {
                        let e = #[trigger] t.nodes[x].ch[k];
                        B::cok(e.cache) && e.cache == t.kc(e.arena)
                    } by {
                        if k < self.n(p) {
                            let e = self.nodes[x].ch[k];
                            assert(e == t.nodes[x].ch[k]);
                            assert(e.arena == aix(g, w - 1, (g.fst)(x) + k));
                            assert(self.lvl_ok(g, w - 1, (g.fst)(x) + k));
                        }
                    }
                }
            }
        }
        assert forall|y: RawArenaIndex| #[trigger] t.leaf_ok(g, y) by { assert(self.leaf_ok(g, y)); }
        assert forall|y: RawArenaIndex| #[trigger] t.elem_ok(y) by { assert(self.elem_ok(y)); }
    }
    proof fn lm_b_level(self, g: G, w: int)
        requires self.bld(g, w, g.lv[w - 1].len() as int), g.lv[w].len() > 0, self.n(g.lv[w].last()) > 0
        ensures self.bld(g_level(g), w + 1, 0)
    {
        reveal(TS::bld);
        let g1 = g_level(g);
        let d = g.lv[w - 1].len() as int;
        assert forall|h: int, i: int| #[trigger] self.lvl_ok(g1, h, i) by { assert(self.lvl_ok(g, h, i)); }
        assert forall|i: int| #[trigger] self.lfl_ok(g1, i) by { assert(self.lfl_ok(g, i)); }
        assert forall|x: RawArenaIndex| #[trigger] self.b_node(g1, w + 1, 0, x) by {
            assert(self.b_node(g, w, d, x));
            if self.nodes.contains_key(x) {
                assert(self.kids_ok(g1, x)) by {
                    assert forall|j: int| 0 <= j < self.n(x) implies (#[trigger] self.nodes[x].ch[j]).arena == aix(g1, (g1.ht)(x) - 1, (g1.fst)(x) + j) by {
                        assert(self.nodes[x].ch[j].arena == aix(g, (g.ht)(x) - 1, (g.fst)(x) + j));
                    }
                }
            }
        }
        assert forall|y: RawArenaIndex| #[trigger] self.leaf_ok(g1, y) by { assert(self.leaf_ok(g, y)); }
    }
    proof fn lm_same_but2(self, u: TS<B>, o: TS<B>, a: RawArenaIndex)
        requires self.leaves == u.leaves, u.same_but(o, a, a, a)
        ensures self.same_but(o, a, a, a)
    { reveal(TS::same_but); assert forall|l: RawArenaIndex| l != a implies #[trigger] self.same_leaf(o, l) by { assert(u.same_leaf(o, l)); } }
    proof fn lm_b_root(self, g: G, w: int, d: int, r: ArenaIndex)
        requires self.bld(g, w, d)
        ensures (TS { root: r, ..self }).bld(g, w, d)
    {
        reveal(TS::bld);
        let t = TS { root: r, ..self };
        assert forall|h: int, i: int| #[trigger] t.lvl_ok(g, h, i) by { assert(self.lvl_ok(g, h, i)); }
        assert forall|i: int| #[trigger] t.lfl_ok(g, i) by { assert(self.lfl_ok(g, i)); }
        assert forall|x: RawArenaIndex| #[trigger] t.b_node(g, w, d, x) by { assert(self.b_node(g, w, d, x)); if self.nodes.contains_key(x) { self.lm_b_cache(t, g, w, d, x); } }
        assert forall|y: RawArenaIndex| #[trigger] t.leaf_ok(g, y) by { assert(self.leaf_ok(g, y)); }
        assert forall|y: RawArenaIndex| #[trigger] t.elem_ok(y) by { assert(self.elem_ok(y)); }
    }
    // one node on top: a tree
    proof fn lm_b_done(self, g: G, w: int)
        requires self.bld(g, w, g.lv[w - 1].len() as int), g.lv[w].len() == 1, self.n(g.lv[w][0]) > 0 || w == 1, self.root == ArenaIndex::Internal(g.lv[w][0])
        ensures self.shape(g), self.not_full(), self.elems_ok(), self.caches_ok()
    {
        reveal(TS::bld); reveal(TS::lnk); reveal(TS::sized); reveal(TS::not_full); reveal(TS::elems_ok); reveal(TS::caches_ok);
        let d = g.lv[w - 1].len() as int;
        self.lm_b_at(g, w, d, w, 0);
        assert(g.lv.last() =~= seq![self.rt()]);
        assert(self.top_ok(g));
        assert forall|x: RawArenaIndex| #[trigger] self.node_ok(g, x) && self.size_ok(g, x) && self.roomy(x) && self.cache_ok(x) by {
            assert(self.b_node(g, w, d, x));
            if self.nodes.contains_key(x) && (g.ht)(x) == w { assert((g.pos)(x) == 0); assert(x == self.rt()); }
        }
        assert forall|x: RawArenaIndex| #[trigger] self.size_ok(g, x) by { assert(self.node_ok(g, x)); }
        assert forall|x: RawArenaIndex| #[trigger] self.roomy(x) by { assert(self.node_ok(g, x)); }
        assert forall|x: RawArenaIndex| #[trigger] self.cache_ok(x) by { assert(self.node_ok(g, x)); }
        assert forall|y: RawArenaIndex| #[trigger] self.elem_ok(y) by {}
    }
}
impl<B: BTreeTrait> BTree<B> {
    // self holds what o holds and, apart from it, the nodes and leaves of t
    spec fn beyond(&self, o: &Self, t: TS<B>) -> bool {
        &&& self.ts().nodes == o.ts().nodes.union_prefer_right(t.nodes) && self.ts().leaves == o.ts().leaves.union_prefer_right(t.leaves)
        &&& t.nodes.dom().disjoint(o.ts().nodes.dom()) && t.leaves.dom().disjoint(o.ts().leaves.dom())
        &&& t.leaves.dom().disjoint(o.leaf_nodes.used())
    }
    // one node more, or another one in its place
    proof fn lm_beyond(&self, s: &Self, o: &Self, t: TS<B>, t2: TS<B>, m: RawArenaIndex, x: Node<B>)
        requires s.ts().nodes == o.ts().nodes.union_prefer_right(t.nodes), self.in_nodes@ == s.in_nodes@.insert(m, x), t2.nodes == t.nodes.insert(m, ns(x)),
            t.nodes.dom().disjoint(o.ts().nodes.dom()), !o.in_nodes@.contains_key(m)
        ensures self.ts().nodes == o.ts().nodes.union_prefer_right(t2.nodes), t2.nodes.dom().disjoint(o.ts().nodes.dom())
    {
        self.lm_ts(); s.lm_ts(); o.lm_ts();
        assert forall|y: RawArenaIndex| #[trigger] self.ts().nodes.contains_key(y) implies self.ts().nodes[y] == o.ts().nodes.union_prefer_right(t2.nodes)[y] by {
            if y != m { assert(self.in_nodes@[y] == s.in_nodes@[y]); assert(s.ts().nodes[y] == ns(s.in_nodes@[y])); }
        }
        assert(self.ts().nodes =~= o.ts().nodes.union_prefer_right(t2.nodes));
    }
    proof fn lm_beyond2(&self, s: &Self, o: &Self, t: TS<B>, t2: TS<B>, m: RawArenaIndex, x: Node<B>, c: RawArenaIndex, z: Node<B>)
        requires s.ts().nodes == o.ts().nodes.union_prefer_right(t.nodes), self.in_nodes@ == s.in_nodes@.insert(m, x).insert(c, z), t2.nodes == t.nodes.insert(m, ns(x)).insert(c, ns(z)),
            t.nodes.dom().disjoint(o.ts().nodes.dom()), !o.in_nodes@.contains_key(m), !o.in_nodes@.contains_key(c)
        ensures self.ts().nodes == o.ts().nodes.union_prefer_right(t2.nodes), t2.nodes.dom().disjoint(o.ts().nodes.dom())
    {
        self.lm_ts(); s.lm_ts(); o.lm_ts();
        assert forall|y: RawArenaIndex| #[trigger] self.ts().nodes.contains_key(y) implies self.ts().nodes[y] == o.ts().nodes.union_prefer_right(t2.nodes)[y] by {
            if y != m && y != c { assert(self.in_nodes@[y] == s.in_nodes@[y]); assert(s.ts().nodes[y] == ns(s.in_nodes@[y])); }
        }
        assert(self.ts().nodes =~= o.ts().nodes.union_prefer_right(t2.nodes));
    }
    // what was added to o, with the root r
    spec fn newer(&self, o: &Self, r: ArenaIndex) -> TS<B> {
        TS { nodes: self.ts().nodes.remove_keys(o.in_nodes@.dom()), leaves: self.leaf_nodes@.remove_keys(o.leaf_nodes@.dom()), root: r }
    }
    proof fn lm_newer(&self, o: &Self, t: TS<B>, r: ArenaIndex)
        requires self.beyond(o, t)
        ensures self.newer(o, r) == (TS { root: r, ..t }),
            forall|m: RawArenaIndex| #[trigger] o.in_nodes@.contains_key(m) ==> self.ts().nodes.contains_key(m) && self.ts().nodes[m] == o.ts().nodes[m],
            forall|m: RawArenaIndex| #[trigger] o.leaf_nodes@.contains_key(m) ==> self.leaf_nodes@.contains_key(m) && self.leaf_nodes@[m] == o.leaf_nodes@[m],
    {
        assert(self.newer(o, r).nodes =~= t.nodes);
        assert(self.newer(o, r).leaves =~= t.leaves);
    }
//@ code src/lib.rs "BTree::create_subtrees_from_elem" tags=C03,C04,C05,C13,C16
//@ rw let mut height = 0; ==> let mut height: usize = 0;
    fn create_subtrees_from_elem(&mut self, data: Vec<B::Elem>) -> «(r:» (ArenaIndex, usize)«)
        requires data@.len() > 0, good(data@)
        ensures final(self).root == old(self).root, final(self).root_cache == old(self).root_cache, final(self).uses(old(self)),
            // what was there before is there as it was
            forall|m: RawArenaIndex| #[trigger] old(self).in_nodes@.contains_key(m) ==> final(self).ts().nodes.contains_key(m) && final(self).ts().nodes[m] == old(self).ts().nodes[m],
            forall|m: RawArenaIndex| #[trigger] old(self).leaf_nodes@.contains_key(m) ==> final(self).leaf_nodes@.contains_key(m) && final(self).leaf_nodes@[m] == old(self).leaf_nodes@[m],
            // the rest is a well-formed tree with the elements in order
            /*C13 C04*/ final(self).newer(old(self), r.0).shape(final(self).g@), /*C13 C04*/ final(self).newer(old(self), r.0).not_full(), final(self).newer(old(self), r.0).elems_ok(),
            /*C13 C05*/ final(self).newer(old(self), r.0).caches_ok(),
            /*C13 C03*/ final(self).order().len() == data@.len(),
            forall|i: int| 0 <= i < data@.len() ==> /*C13 C03*/ final(self).leaf_nodes@[#[trigger] final(self).order()[i]].elem == data@[i]»
    {
        «let ghost o = *self; let ghost mut t = TS::<B> { nodes: Map::empty(), leaves: Map::empty(), root: self.root }; let ghost mut g = g_bare(); let ghost mut w = 1int;
        proof { TS::<B>::lm_b_bare(self.root); assert(self.ts().nodes =~= o.ts().nodes.union_prefer_right(t.nodes)); assert(self.ts().leaves =~= o.ts().leaves.union_prefer_right(t.leaves)); }»
        let mut height: usize = 0;
        let max_child_size = MAX_CHILDREN_NUM - 2;
        let mut nodes = Vec::with_capacity(data.len() / max_child_size + 1);
        let vx_n = data.len();
        let mut vx_c = 0usize;
        while vx_c < vx_n
            «invariant vx_n == data@.len(), good(data@), vx_c <= vx_n, 2 <= max_child_size < MAX_CHILDREN_NUM, self.root == o.root, self.root_cache == o.root_cache, self.uses(&o), self.g == o.g,
                self.beyond(&o, t), t.bld(g, 1, vx_c as int), nodes@ == g.lv[1], nodes@.len() <= vx_c, vx_c > 0 ==> nodes@.len() > 0 && t.n(g.lv[1].last()) > 0,
                forall|i: int| 0 <= i < vx_c ==> t.leaves[#[trigger] g.lv[0][i]].elem == data@[i],
            decreases vx_n - vx_c»
        {
            let vx_e = if vx_n - vx_c > max_child_size { vx_c + max_child_size } else { vx_n };
            «let ghost s0 = *self; let ghost t0 = t; let ghost g0 = g;»
            let parent_index = self.in_nodes.insert(Node {
                parent: None,
                parent_slot: 0,
                children: HeaplessVec::new(),
            });
            «let ghost p = parent_index; let ghost inm = self.in_nodes@; let ghost s1 = *self;
            proof {
                s0.lm_ts(); o.lm_ts();
                assert(!s0.ts().nodes.contains_key(p));
                assert(!o.ts().nodes.contains_key(p) && !t0.nodes.contains_key(p));
                assert(t0.b_add(p, 0).nodes == t0.nodes.insert(p, ns(self.in_nodes@[p])));
                self.lm_beyond(&s0, &o, t0, t0.b_add(p, 0), p, self.in_nodes@[p]);
                t0.lm_b_dims(g0, 1, vx_c as int);
                t0.lm_b_add(g0, 1, vx_c as int, p, 0);
                t = t0.b_add(p, 0); g = g_push(g0, 1, p, vx_c as int);
            }
            let ghost t1 = t;»
            nodes.push(parent_index);
            let parent = self.in_nodes.get_mut(parent_index).unwrap();
            let mut vx_i = vx_c;
            while vx_i < vx_e
                «invariant vx_n == data@.len(), good(data@), vx_c <= vx_i <= vx_e <= vx_n, vx_e - vx_c < MAX_CHILDREN_NUM, vx_c < vx_e,
                    t.bld(g, 1, vx_i as int), g.lv[1] == nodes@, nodes@.len() > 0, nodes@.last() == p, p == parent_index, t.n(p) == vx_i - vx_c,
                    *parent == (Node::<B> { children: parent.children, parent: None, parent_slot: 0 }), t.nodes == t1.nodes.insert(p, ns(*parent)),
                    after_borrow(self).in_nodes@ == inm.insert(p, *final(parent)), after_borrow(self).root == o.root, after_borrow(self).root_cache == o.root_cache, after_borrow(self).g == o.g,
                    o.in_nodes.used().subset_of(after_borrow(self).in_nodes.used()),
                    self.leaf_nodes@ == o.leaf_nodes@.union_prefer_right(t.leaves), t.leaves.dom().disjoint(o.leaf_nodes@.dom()), t.leaves.dom().disjoint(o.leaf_nodes.used()),
                    o.leaf_nodes.used().subset_of(self.leaf_nodes.used()), t.root == t1.root,
                    forall|i: int| 0 <= i < vx_i ==> t.leaves[#[trigger] g.lv[0][i]].elem == data@[i],
                decreases vx_e - vx_i»
            {
                «let ghost t2 = t; let ghost g2 = g;»
                let elem = vx_clone(&data[vx_i]);
                let leaf = {
                    let elem_cache = B::get_elem_cache(&elem);
                    let new_leaf_index = {
                        let leaf = LeafNode {
                            elem,
                            parent: parent_index,
                        };
                        let arena_index = self.leaf_nodes.insert(leaf);
                        ArenaIndex::Leaf(arena_index)
                    };
                    Child {
                        arena: new_leaf_index,
                        cache: elem_cache,
                    }
                };
                «let ghost l = leaf.arena.ix();
                proof {
                    t2.lm_b_dims(g2, 1, vx_i as int);
                    assert(!t2.leaves.contains_key(l));
                    t2.lm_b_leaf(g2, vx_i as int, p, l, data@[vx_i as int]);
                    t = t2.b_leaf(p, l, data@[vx_i as int]); g = g_leaf(g2, l);
                    assert forall|i: int| 0 <= i < vx_i + 1 implies t.leaves[#[trigger] g.lv[0][i]].elem == data@[i] by { if i < vx_i { reveal(TS::bld); assert(t2.lfl_ok(g2, i)); assert(g2.lv[0][i] != l); } }
                }»
                parent.children.push(leaf).unwrap();
                «proof {
                    assert(ns(*parent).ch =~= t.nodes[p].ch);
                    assert(t.nodes =~= t1.nodes.insert(p, ns(*parent)));
                    assert(self.leaf_nodes@ =~= o.leaf_nodes@.union_prefer_right(t.leaves));
                }»
                vx_i = vx_i + 1;
            }
            «proof {
                assert(self.in_nodes@ == s1.in_nodes@.insert(p, self.in_nodes@[p]));
                self.lm_beyond(&s1, &o, t1, t, p, self.in_nodes@[p]);
                assert(self.ts().leaves =~= o.ts().leaves.union_prefer_right(t.leaves));
            }»
            vx_c = vx_e;
        }
        «proof { t.lm_b_dims(g, 1, vx_c as int); }»
        while nodes.len() > 1
            «invariant 2 <= max_child_size < MAX_CHILDREN_NUM, self.root == o.root, self.root_cache == o.root_cache, self.uses(&o), self.g == o.g, w >= 1,
                self.beyond(&o, t), t.bld(g, w, g.lv[w - 1].len() as int), nodes@ == g.lv[w], nodes@.len() > 0, t.n(g.lv[w].last()) > 0,
                g.lv[0].len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> t.leaves[#[trigger] g.lv[0][i]].elem == data@[i],
                height + nodes@.len() <= usize::MAX,
            decreases nodes@.len()»
        {
            «let ghost n0 = nodes@.len();
            proof { let (a, b) = (n0 as int, max_child_size as int); assert(a / b <= a / 2) by(nonlinear_arith) requires a >= 0, b >= 2; t.lm_b_dims(g, w, g.lv[w - 1].len() as int); t.lm_b_level(g, w); g = g_level(g); w = w + 1; }»
            let mut new_nodes = Vec::with_capacity(nodes.len() / max_child_size + 1);
            let vx_n = nodes.len();
            let mut vx_c = 0usize;
            while vx_c < vx_n
                «invariant 2 <= max_child_size < MAX_CHILDREN_NUM, self.root == o.root, self.root_cache == o.root_cache, self.uses(&o), self.g == o.g, w >= 2,
                    self.beyond(&o, t), t.bld(g, w, vx_c as int), nodes@ == g.lv[w - 1], vx_n == nodes@.len(), vx_n > 1, vx_c <= vx_n, new_nodes@ == g.lv[w],
                    if vx_c == 0 { new_nodes@.len() == 0 } else { 0 < new_nodes@.len() < vx_c && t.n(g.lv[w].last()) > 0 },
                    g.lv[0].len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> t.leaves[#[trigger] g.lv[0][i]].elem == data@[i],
                decreases vx_n - vx_c»
            {
                let vx_e = if vx_n - vx_c > max_child_size { vx_c + max_child_size } else { vx_n };
                «let ghost s0 = *self; let ghost t0 = t; let ghost g0 = g;»
                let parent_index = self.in_nodes.insert(Node {
                    parent: None,
                    parent_slot: 0,
                    children: HeaplessVec::new(),
                });
                «let ghost p = parent_index;
                proof {
                    s0.lm_ts(); o.lm_ts();
                    assert(!s0.ts().nodes.contains_key(p));
                    assert(!o.ts().nodes.contains_key(p) && !t0.nodes.contains_key(p));
                    assert(t0.b_add(p, 0).nodes == t0.nodes.insert(p, ns(self.in_nodes@[p])));
                    self.lm_beyond(&s0, &o, t0, t0.b_add(p, 0), p, self.in_nodes@[p]);
                    t0.lm_b_dims(g0, w, vx_c as int);
                    t0.lm_b_add(g0, w, vx_c as int, p, 0);
                    t = t0.b_add(p, 0); g = g_push(g0, w, p, vx_c as int);
                    assert(self.ts().leaves =~= o.ts().leaves.union_prefer_right(t.leaves));
                }»
                new_nodes.push(parent_index);
                for i in 0..vx_e - vx_c
                    «invariant self.root == o.root, self.root_cache == o.root_cache, self.uses(&o), self.g == o.g, w >= 2,
                        self.beyond(&o, t), t.bld(g, w, vx_c + i), nodes@ == g.lv[w - 1], vx_n == nodes@.len(), vx_c < vx_e <= vx_n, vx_e - vx_c < MAX_CHILDREN_NUM, new_nodes@ == g.lv[w],
                        new_nodes@.len() > 0, new_nodes@.last() == p, p == parent_index, t.n(p) == i,
                        g.lv[0].len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> t.leaves[#[trigger] g.lv[0][i]].elem == data@[i]»
                {
                    let child_idx = nodes[vx_c + i];
                    «let ghost c = child_idx; let ghost t2 = t; let ghost s2 = *self;
                    proof { t2.lm_b_child(g, w, vx_c + i, p, c); t = t2.b_child(p, c); assert(s2.ts().nodes[p] == t2.nodes[p]); assert(s2.ts().nodes[c] == t2.nodes[c]);
                        assert(s2.in_nodes@.contains_key(p) && s2.in_nodes@.contains_key(c));
                    }»
                    let (parent, child) = self.in_nodes.get2_mut(parent_index, child_idx);
                    let parent = parent.unwrap();
                    let child = child.unwrap();
                    let mut cache = vx_cache0::<B>();
                    «proof { assert(child.children@ == t2.nodes[c].ch); }»
                    B::calc_cache_internal(&mut cache, &child.children);
                    «proof { assert(cache == B::sum(t2.kids(c))); }»
                    let new_child = Child {
                        arena: ArenaIndex::Internal(child_idx),
                        cache,
                    };
                    parent.children.push(new_child).unwrap();
                    «proof { assert(parent.children@ =~= t.nodes[p].ch); }»
                    child.parent = Some(ArenaIndex::Internal(parent_index));
                    child.parent_slot = i as u8;
                    «proof {
                        let (x, y) = (self.in_nodes@[p], self.in_nodes@[c]);
                        assert(self.in_nodes@ =~= s2.in_nodes@.insert(p, x).insert(c, y));
                        self.lm_beyond2(&s2, &o, t2, t, p, x, c, y);
                        assert(self.ts().leaves =~= o.ts().leaves.union_prefer_right(t.leaves));
                    }»
                }
                vx_c = vx_e;
            }
            nodes = new_nodes;
            height += 1;
        }
        «proof {
            let r = ArenaIndex::Internal(nodes@[0]);
            assert forall|i: int| 0 <= i < data@.len() implies self.leaf_nodes@[#[trigger] g.lv[0][i]] == t.leaves[g.lv[0][i]] by { reveal(TS::bld); assert(t.lfl_ok(g, i)); }
            t.lm_b_dims(g, w, g.lv[w - 1].len() as int);
            let t9 = TS { root: r, ..t };
            assert(t9.bld(g, w, g.lv[w - 1].len() as int)) by { t.lm_b_root(g, w, g.lv[w - 1].len() as int, r); }
            t9.lm_b_done(g, w);
            self.g = Ghost(g);
            self.lm_newer(&o, t, r);
        }»
        (ArenaIndex::Internal(nodes[0]), height)
    }
//@ end
}
impl<B: BTreeTrait> BTree<B> {
    // cutting a leaf leaves the content alone; the cursor r behind the cut is at the same place
    proof fn lm_cut_all(&self, o: &Self, c: Cursor, new_leaf: Option<ArenaIndex>)
        requires o.ts().lnk(o.g@), self.ts().lnk(self.g@), o.valid(c), self.cut_leaf(o, c, new_leaf)
        ensures self.all() == o.all(), new_leaf is Some ==> self.off(Cursor { leaf: LeafIndex((new_leaf->0).ix()), offset: 0 }) == o.off(c)
    {
        if new_leaf is Some {
            let l = c.leaf.0;
            let s = (new_leaf->0).ix();
            let i = o.at(c.leaf);
            let k = c.offset as int;
            let e = o.el(l);
            let e1 = e.subrange(0, k);
            let e2 = e.subrange(k, e.len() as int);
            let no = o.order().len() as int;
            let ns = self.order().len() as int;
            o.lm_at_o(); self.lm_at_o();
            o.lm_around(l);
            assert(self.order()[i + 1] == s);
            assert(self.order()[i] == l);
            let a = o.items().subrange(0, i);
            let b = o.items().subrange(i + 1, no);
            assert forall|q: int| i + 1 <= q < no implies self.order()[q + 1] == #[trigger] o.order()[q] by {}
            self.lm_items_part(o, l, s, s, i, i + 1, 1);
            assert(self.items() =~= a + seq![e1, e2] + b) by {
                assert(self.items() =~= self.items().subrange(0, i) + seq![e1, e2] + self.items().subrange(i + 2, ns));
            }
            lm_flat3(a, seq![e1, e2], b);
            assert(seq![e1, e2] =~= seq![e1] + seq![e2]);
            lm_flat_cat(seq![e1], seq![e2]);
            lm_flat1(e1); lm_flat1(e2);
            assert(e =~= e1 + e2);
            assert(self.all() =~= o.all());
            assert(self.items().subrange(0, i + 1) =~= a + seq![e1]);
            lm_flat_cat(a, seq![e1]);
        } else {
            assert(self.items() =~= o.items());
        }
    }
    // the end of a leaf is where the next one begins
    proof fn lm_next_off(&self, l: RawArenaIndex)
        requires self.ts().lnk(self.g@), self.leaf_nodes@.contains_key(l)
        ensures flat(self.items().subrange(0, (self.g@.lpos)(l) + 1)) == flat(self.items().subrange(0, (self.g@.lpos)(l))) + self.el(l)
    {
        self.lm_around(l);
        let i = (self.g@.lpos)(l);
        assert(self.items().subrange(0, i + 1) =~= self.items().subrange(0, i) + seq![self.el(l)]);
        lm_flat_cat(self.items().subrange(0, i), seq![self.el(l)]);
        lm_flat1(self.el(l));
    }
    // the list x was put into the content at place i
    spec fn put_all(&self, o: &Self, i: int, x: Seq<<B::Elem as HasLength>::Unit>) -> bool {
        self.all() == o.all().subrange(0, i) + x + o.all().subrange(i, o.all().len() as int)
    }
    // every leaf of o but for the one of the cursor and its neighbours is there with the element it had
    spec fn mostly(&self, o: &Self, c: Cursor) -> bool {
        let i = o.at(c.leaf);
        forall|j: int| 0 <= j < o.order().len() && j != i && j != i - 1 && j != i + 1 ==> self.ts().same_leaf(o.ts(), #[trigger] o.order()[j])
    }
    spec fn near(&self, c: Cursor, l: RawArenaIndex) -> bool {
        !self.leaf_nodes.used().contains(l) || self.leaf_nodes@.contains_key(l) && self.at(c.leaf) - 1 <= (self.g@.lpos)(l) <= self.at(c.leaf) + 1
    }
    proof fn lm_mostly0(&self, o: &Self, c: Cursor, new_leaf: Option<ArenaIndex>)
        requires self.cut_leaf(o, c, new_leaf), o.ts().lnk(o.g@), o.valid(c)
        ensures self.mostly(o, c)
    {
        o.lm_at_o();
        o.ts().lm_leaf(o.g@, c.leaf.0);
        assert forall|j: int| 0 <= j < o.order().len() && j != o.at(c.leaf) && j != o.at(c.leaf) - 1 && j != o.at(c.leaf) + 1 implies self.ts().same_leaf(o.ts(), #[trigger] o.order()[j]) by {
            if new_leaf is Some { self.ts().lm_same_but(o.ts(), c.leaf.0, (new_leaf->0).ix(), (new_leaf->0).ix(), o.order()[j]); }
        }
    }
    proof fn lm_mostly1(&self, u: &Self, o: &Self, c: Cursor, a: RawArenaIndex)
        requires u.mostly(o, c), self.ts().same_but(u.ts(), a, a, a), o.near(c, a), o.ts().lnk(o.g@)
        ensures self.mostly(o, c)
    {
        o.lm_at_o();
        assert forall|j: int| 0 <= j < o.order().len() && j != o.at(c.leaf) && j != o.at(c.leaf) - 1 && j != o.at(c.leaf) + 1 implies self.ts().same_leaf(o.ts(), #[trigger] o.order()[j]) by {
            self.ts().lm_same_but(u.ts(), a, a, a, o.order()[j]);
        }
    }
    proof fn lm_mostly(&self, u: &Self, o: &Self, c: Cursor, q: Cursor, x: Seq<<B::Elem as HasLength>::Unit>, r: Cursor, sl: Seq<LeafIndex>)
        requires u.mostly(o, c), self.placed(u, q, x, r, sl), o.near(c, q.leaf.0), o.ts().lnk(o.g@), u.uses(o)
        ensures self.mostly(o, c), o.near(c, r.leaf.0)
    {
        o.lm_at_o();
        let (l, n, s) = (q.leaf.0, r.leaf.0, if sl.len() > 0 { sl[0].0 } else { r.leaf.0 });
        assert(self.ts().same_but(u.ts(), l, l, l) || self.ts().same_but(u.ts(), n, n, n) || self.ts().same_but(u.ts(), l, s, n));
        assert forall|j: int| 0 <= j < o.order().len() && j != o.at(c.leaf) && j != o.at(c.leaf) - 1 && j != o.at(c.leaf) + 1 implies self.ts().same_leaf(o.ts(), #[trigger] o.order()[j]) by {
            if self.ts().same_but(u.ts(), l, l, l) { self.ts().lm_same_but(u.ts(), l, l, l, o.order()[j]); }
            else if self.ts().same_but(u.ts(), n, n, n) { self.ts().lm_same_but(u.ts(), n, n, n, o.order()[j]); }
            else { self.ts().lm_same_but(u.ts(), l, s, n, o.order()[j]); }
        }
    }
    proof fn lm_mostly_refl(&self, c: Cursor)
        requires self.ts().lnk(self.g@), self.valid(c)
        ensures self.mostly(self, c), self.near(c, c.leaf.0)
    {}
    // the leaf before the cursor c got y at its end
    proof fn lm_left(&self, s: &Self, l: RawArenaIndex, c: Cursor, y: Seq<<B::Elem as HasLength>::Unit>)
        requires s.ts().lnk(s.g@), self.g == s.g, self.ts().lnk(self.g@), self.ts().same_but(s.ts(), l, l, l), s.leaf_nodes@.contains_key(l), self.leaf_nodes@.contains_key(l),
            s.leaf_nodes@.contains_key(c.leaf.0), s.at(c.leaf) == (s.g@.lpos)(l) + 1, c.offset == 0, self.el(l) == s.el(l) + y
        ensures self.put_all(s, s.off(c), y), self.off(c) == s.off(c) + y.len()
    {
        let i = (s.g@.lpos)(l);
        s.lm_at_o(); self.lm_at_o();
        s.lm_around(l); self.lm_around(l);
        s.lm_next_off(l); self.lm_next_off(l);
        self.lm_items_part(s, l, l, l, i, i + 1, 0);
        let fa = flat(s.items().subrange(0, i)); let fb = flat(s.items().subrange(i + 1, s.order().len() as int));
        assert(s.all().subrange(0, s.off(c)) =~= fa + s.el(l));
        assert(s.all().subrange(s.off(c), s.all().len() as int) =~= fb);
        assert(self.all() =~= s.all().subrange(0, s.off(c)) + y + s.all().subrange(s.off(c), s.all().len() as int));
    }
    // one more
    proof fn lm_many(&self, u: &Self, o: &Self, f: int, y: Seq<<B::Elem as HasLength>::Unit>, z: Seq<<B::Elem as HasLength>::Unit>, x: Seq<<B::Elem as HasLength>::Unit>, q: Cursor, r: Cursor)
        requires u.put_all(o, f, y + z), 0 <= f <= o.all().len(), u.off(q) == f + y.len(), self.spliced(u, q, x, r)
        ensures self.put_all(o, f, y + (x + z)), self.off(r) == f + y.len(), self.valid(r)
    {
        let i = f + y.len();
        assert(u.all().subrange(0, i) =~= o.all().subrange(0, f) + y);
        assert(u.all().subrange(i, u.all().len() as int) =~= z + o.all().subrange(f, o.all().len() as int));
        assert(self.all() =~= o.all().subrange(0, f) + (y + (x + z)) + o.all().subrange(f, o.all().len() as int));
    }
    // a tree without leaves has its root and nothing else
    proof fn lm_void(&self)
        requires self.ts().shape(self.g@), self.order().len() == 0
        ensures self.leaf_nodes@.dom() =~= Set::<RawArenaIndex>::empty(), self.in_nodes@.dom() =~= set![self.root.ix()], self.all() == Seq::<<B::Elem as HasLength>::Unit>::empty(), self.root is Internal
    {
        let (t, g) = (self.ts(), self.g@);
        self.lm_ts();
        self.lm_empty();
        t.lm_root(g);
        assert forall|l: RawArenaIndex| !(#[trigger] self.leaf_nodes@.contains_key(l)) by { if self.leaf_nodes@.contains_key(l) { t.lm_leaf(g, l); } }
        assert forall|m: RawArenaIndex| #[trigger] self.in_nodes@.contains_key(m) == (m == self.root.ix()) by { if t.nodes.contains_key(m) { t.lm_node(g, m); } }
        assert(self.items() =~= Seq::<Seq<<B::Elem as HasLength>::Unit>>::empty());
        assert(self.all() =~= Seq::<<B::Elem as HasLength>::Unit>::empty());
    }
    proof fn lm_off(&self, c: Cursor)
        requires self.ts().lnk(self.g@), self.valid(c)
        ensures 0 <= self.off(c) <= self.all().len()
    { self.lm_around(c.leaf.0); }
    // the cursor behind the cut
    proof fn lm_pos(&self, o: &Self, c: Cursor, new_leaf: Option<ArenaIndex>, q: Cursor)
        requires o.ts().lnk(o.g@), self.ts().lnk(self.g@), o.valid(c), self.cut_leaf(o, c, new_leaf),
            q == (if new_leaf is Some { Cursor { leaf: LeafIndex((new_leaf->0).ix()), offset: 0 } }
                else if c.offset == 0 { c }
                else if o.at(c.leaf) + 1 < o.order().len() { Cursor { leaf: LeafIndex(o.order()[o.at(c.leaf) + 1]), offset: 0 } }
                else { c })
        ensures self.valid(q), self.off(q) == o.off(c), o.near(c, q.leaf.0)
    {
        o.lm_at_o();
        o.ts().lm_leaf(o.g@, c.leaf.0);
        self.lm_cut_all(o, c, new_leaf);
        o.lm_next_off(c.leaf.0);
        if new_leaf is None { assert(self.items() =~= o.items()); }
    }
//@ code src/lib.rs "BTree::insert_many_by_cursor" tags=C03,C04,C05,C07,C13,C16
//@ rw let (p, _) = ==> let (p, vx_s) =
    fn insert_many_by_cursor(
        &mut self,
        cursor: Option<Cursor>,
        mut data_iter: VxIter<B::Elem>,
    )«
        requires old(self).inv(), good(data_iter@),
            cursor is Some ==> old(self).valid(cursor->0) && (B::USE_DIFF || cursor->0.offset == 0 || cursor->0.offset == old(self).el(cursor->0.leaf.0).len()),
            // several elements need a cursor unless the tree is empty
            cursor is None ==> old(self).order().len() == 0 || data_iter@.len() <= 1,
        ensures /*C04 C05*/ final(self).inv(), final(self).uses(old(self)),
            cursor is Some ==> /*C03 C13*/ final(self).put_all(old(self), old(self).off(cursor->0), text(data_iter@)),
            cursor is Some ==> /*C07*/ final(self).mostly(old(self), cursor->0), cursor is Some ==> /*C03 C07*/ final(self).front(old(self), old(self).place(cursor->0)),
            cursor is None ==> /*C03 C13*/ final(self).all() == old(self).all() + text(data_iter@)»
    {
        «let ghost o = *self; let ghost d0 = data_iter@;»
        let Some(first) = data_iter.next() else {
            «proof { lm_text0(d0); if cursor is Some { o.lm_mostly_refl(cursor->0); o.lm_off(cursor->0); o.lm_front_refl(cursor->0); assert(o.all() =~= o.all().subrange(0, o.off(cursor->0)) + text(d0) + o.all().subrange(o.off(cursor->0), o.all().len() as int)); } else { assert(o.all() =~= o.all() + text(d0)); } }»
            return;
        };
        let Some(second) = data_iter.next() else {
            «proof { lm_text1(d0); }»
            if let Some(c) = cursor {
                «let (vx_r, vx_s) =» self.insert_by_path(c, first);
                «proof { o.lm_mostly_refl(c); self.lm_mostly(&o, &o, c, c, first.content(), vx_r, vx_s.arr@); o.lm_front_refl(c); self.lm_front_placed(&o, c, first.content(), vx_r, vx_s.arr@, o.place(c)); }»
                return;
            } else {
                self.push(first);
                return;
            }
        };
        let mut data = Vec::with_capacity(data_iter.size_hint().0 + 2);
        data.push(first);
        data.push(second);
        while let Some(elem) = data_iter.next()
            «invariant_except_break true
            invariant data@ + data_iter@ == d0
            ensures data@ == d0
            decreases data_iter@.len()»
        {
            data.push(elem);
        }
        merge_adj(&mut data);
        «let ghost dd = data@;
        proof { assert(text(dd) == text(d0)); }»
        if data.len() == 1 {
            «proof { lm_text1(dd); }»
            if let Some(c) = cursor {
                «let (vx_r, vx_s) =» self.insert_by_path(c, data.pop().unwrap());
                «proof { o.lm_mostly_refl(c); self.lm_mostly(&o, &o, c, c, dd[0].content(), vx_r, vx_s.arr@); o.lm_front_refl(c); self.lm_front_placed(&o, c, dd[0].content(), vx_r, vx_s.arr@, o.place(c)); }»
                return;
            } else {
                self.push(data.pop().unwrap());
                return;
            }
        }
        if cursor.is_none() && self.is_empty() {
            assert!(self.is_empty());
            «proof { o.lm_empty(); o.lm_void(); }»
            let (new_root, _) = self.create_subtrees_from_elem(data);
            «let ghost cs = *self; proof { assert(o.in_nodes@.contains_key(o.root.ix())); assert(cs.ts().nodes.contains_key(o.root.ix())); }»
            self.in_nodes.remove(self.root.unwrap()).unwrap();
            self.root = new_root;
            «let ghost u = *self;
            proof {
                assert(u.ts().nodes =~= cs.newer(&o, new_root).nodes);
                assert(u.ts().leaves =~= cs.newer(&o, new_root).leaves);
                assert(u.ts() == cs.newer(&o, new_root));
                assert(u.items() =~= contents(dd));
                assert(o.all() + text(dd) =~= text(dd));
            }»
            self.update_root_cache();
            «proof { assert(self.ts() == u.ts()); assert(self.items() =~= contents(dd)); }»
            return;
        }
        «proof { o.lm_empty(); }»
        let cursor = cursor.unwrap();
        «let ghost f = o.off(cursor); let ghost fp = o.place(cursor); proof { o.lm_at_o(); o.ts().lm_root(o.g@); o.ts().lm_leaf(o.g@, cursor.leaf.0); o.lm_off(cursor); }»
        let SplitInfo {
            new_pos,
            left_neighbour,
            «new_leaf: vx_new,»
            ..
        } = self.split_leaf_if_needed(cursor);
        «let ghost s1 = *self; let ghost mut y = Seq::<<B::Elem as HasLength>::Unit>::empty(); let ghost q = if new_pos is Some { new_pos->0 } else { cursor };
        proof {
            s1.lm_cut_all(&o, cursor, vx_new);
            s1.lm_mostly0(&o, cursor, vx_new);
            lm_text0(dd.subrange(0, 0));
            o.lm_next_off(cursor.leaf.0);
            s1.lm_pos(&o, cursor, vx_new, q);
            s1.lm_front_cut(&o, cursor, vx_new, q, fp);
            assert(s1.all() =~= o.all().subrange(0, f) + y + o.all().subrange(f, o.all().len() as int));
        }»
        let mut inserted = 0;
        if let Some(left) = (if cursor.offset == 0 { left_neighbour } else { None }) {
            «let ghost l = left.0; let ghost e0 = s1.leaf_nodes@[l].elem; proof { s1.ts().lm_elems_ok(l); lm_assoc2(e0.content()); assert(o.near(cursor, l)); }»
            let left_node = self.leaf_nodes.get_mut(left.0).unwrap();
            let mut i = 0;
            while i < data.len() && left_node.elem.can_merge(&data[i])
                «invariant good(data@), i <= data@.len(), left_node.elem.ok(), left_node.parent == s1.leaf_nodes@[l].parent, left_node.elem.content() == e0.content() + text(data@.subrange(0, i as int)),
                    after_borrow(self).leaf_nodes@ == s1.leaf_nodes@.insert(l, *final(left_node)), after_borrow(self).leaf_nodes.used() == s1.leaf_nodes.used(),
                    after_borrow(self).in_nodes == s1.in_nodes, after_borrow(self).g == s1.g, after_borrow(self).root == s1.root, after_borrow(self).root_cache == s1.root_cache
                decreases data@.len() - i»
            {
                «proof { lm_text_push(data@.subrange(0, i as int), data@[i as int]); assert(data@.subrange(0, i as int).push(data@[i as int]) =~= data@.subrange(0, i + 1));
                    assert((e0.content() + text(data@.subrange(0, i as int))) + data@[i as int].content() =~= e0.content() + (text(data@.subrange(0, i as int)) + data@[i as int].content())); }»
                left_node.elem.merge_right(&data[i]);
                i += 1;
            }
            «let ghost u = *self; let ghost e1 = u.leaf_nodes@[l].elem;
            proof {
                assert(u.ts().leaves =~= s1.ts().set_elem(l, e1).leaves);
                assert(u.ts().nodes =~= s1.ts().nodes);
                assert(u.ts() == s1.ts().set_elem(l, e1));
                s1.ts().lm_changed(s1.g@, s1.root_cache, l, e1);
                s1.ts().lm_set_elem(s1.g@, l, e1);
            }»
            self.recursive_update_cache(left.into(), B::USE_DIFF, None);
            «proof {
                u.ts().lm_sim(self.ts(), u.g@);
                y = text(data@.subrange(0, i as int));
                self.ts().lm_same_but2(u.ts(), s1.ts(), l);
                self.lm_left(&s1, l, cursor, y);
                self.lm_mostly1(&s1, &o, cursor, l);
                self.lm_front_same(&s1, l, fp); self.lm_front_trans(&s1, &o, fp);
            }»
            inserted = i;
        }
        let mut pos = new_pos.unwrap_or(cursor);
        «proof { lm_text0(data@.subrange(data@.len() as int, data@.len() as int)); assert(y + text(data@.subrange(data@.len() as int, data@.len() as int)) =~= y); }»
        let mut vx_k = data.len();
        while vx_k > inserted
            «invariant good(data@), inserted <= vx_k <= data@.len(), self.inv(), self.valid(pos), self.uses(&o), o.ts().lnk(o.g@), 0 <= f <= o.all().len(),
                self.off(pos) == f + y.len(), self.put_all(&o, f, y + text(data@.subrange(vx_k as int, data@.len() as int))), self.mostly(&o, cursor), o.near(cursor, pos.leaf.0), self.front(&o, fp), self.place(pos) >= fp,
            decreases vx_k»
        {
            «let ghost u = *self; let ghost q = pos; proof { lm_text_front(data@, vx_k - 1); }»
            vx_k = vx_k - 1;
            let item = vx_clone(&data[vx_k]);
            let (p, vx_s) = self.insert_by_path(pos, item);
            «proof {
                self.lm_many(&u, &o, f, y, text(data@.subrange(vx_k + 1, data@.len() as int)), item.content(), q, p);
                self.lm_mostly(&u, &o, cursor, q, item.content(), p, vx_s.arr@);
                self.lm_front_placed(&u, q, item.content(), p, vx_s.arr@, fp); self.lm_front_trans(&u, &o, fp);
            }»
            pos = p
        }
        «proof { lm_text_cat(data@, inserted as int); }»
    }
//@ end
}

//@ rw std::mem::replace($a, $b) ==> vx_replace($a, $b)
impl<T> Arena<T> {
    #[verifier::external_body]
    fn reserve(&mut self, n: usize)
        ensures *final(self) == *old(self)
    { unimplemented!() }
}
// the struct inside from_iter
struct TempInternalNode<B: BTreeTrait> {
    children: HeaplessVec<Child<B>, MAX_CHILDREN_NUM>,
    cache: B::Cache,
    arena_index: RawArenaIndex,
}
impl<B: BTreeTrait> TS<B> {
    // The nodes n of an arena that has the nodes of the forest; the children of those without a parent are kept elsewhere.
    spec fn half1(self, g: G, w: int, d: int, n: Map<RawArenaIndex, NodeS<B>>, m: RawArenaIndex) -> bool {
        self.nodes.contains_key(m) ==> n.contains_key(m)
            && n[m] == (if (g.ht)(m) < w - 1 || (g.ht)(m) == w - 1 && (g.pos)(m) < d { self.nodes[m] } else { NodeS { ch: Seq::empty(), ..self.nodes[m] } })
    }
    #[verifier::opaque]
    spec fn half(self, g: G, w: int, d: int, n: Map<RawArenaIndex, NodeS<B>>, r: RawArenaIndex) -> bool {
        &&& n.dom() == self.nodes.dom().insert(r) && !self.nodes.contains_key(r)
        &&& forall|m: RawArenaIndex| #[trigger] self.half1(g, w, d, n, m)
    }
    proof fn lm_half_add(self, g: G, w: int, d: int, n: Map<RawArenaIndex, NodeS<B>>, r: RawArenaIndex, m: RawArenaIndex, s: u8)
        requires self.half(g, w, d, n, r), !n.contains_key(m)
        ensures self.b_add(m, s).half(g_push(g, w, m, d), w, d, n.insert(m, NodeS { par: None, slot: s, ch: Seq::empty() }), r), !self.nodes.contains_key(m)
    {
        reveal(TS::half);
        let (t, g1, n1) = (self.b_add(m, s), g_push(g, w, m, d), n.insert(m, NodeS { par: None, slot: s, ch: Seq::empty() }));
        assert(n1.dom() =~= t.nodes.dom().insert(r));
        assert forall|x: RawArenaIndex| #[trigger] t.half1(g1, w, d, n1, x) by { assert(self.half1(g, w, d, n, x)); if x == m { assert(n1[m].ch =~= Seq::<Child<B>>::empty()); } }
    }
    proof fn lm_half_leaf(self, g: G, d: int, n: Map<RawArenaIndex, NodeS<B>>, r: RawArenaIndex, p: RawArenaIndex, l: RawArenaIndex, e: B::Elem)
        requires self.half(g, 1, d, n, r), self.bld(g, 1, d), self.nodes.contains_key(p)
        ensures self.b_leaf(p, l, e).half(g_leaf(g, l), 1, d + 1, n, r)
    {
        reveal(TS::half);
        let (t, g1) = (self.b_leaf(p, l, e), g_leaf(g, l));
        assert(n.dom() =~= t.nodes.dom().insert(r));
        assert forall|x: RawArenaIndex| #[trigger] t.half1(g1, 1, d + 1, n, x) by { assert(self.half1(g, 1, d, n, x)); if self.nodes.contains_key(x) { self.lm_b(g, 1, d, x); } }
    }
    proof fn lm_half_child(self, g: G, w: int, d: int, n: Map<RawArenaIndex, NodeS<B>>, r: RawArenaIndex, p: RawArenaIndex, c: RawArenaIndex, x: NodeS<B>)
        requires self.half(g, w, d, n, r), self.bld(g, w, d), w >= 2, d < g.lv[w - 1].len(), c == g.lv[w - 1][d], g.lv[w].len() > 0, p == g.lv[w].last(), p != c,
            self.nodes.contains_key(p), self.nodes.contains_key(c), x == self.b_child(p, c).nodes[c]
        ensures self.b_child(p, c).half(g, w, d + 1, n.insert(c, x), r)
    {
        reveal(TS::half);
        let (t, n1) = (self.b_child(p, c), n.insert(c, x));
        self.lm_b_at(g, w, d, w, g.lv[w].len() - 1);
        self.lm_b_at(g, w, d, w - 1, d);
        assert(n1.dom() =~= t.nodes.dom().insert(r));
        assert forall|y: RawArenaIndex| #[trigger] t.half1(g, w, d + 1, n1, y) by { assert(self.half1(g, w, d, n, y)); if self.nodes.contains_key(y) { self.lm_b(g, w, d, y); } }
    }
    proof fn lm_half_level(self, g: G, w: int, n: Map<RawArenaIndex, NodeS<B>>, r: RawArenaIndex)
        requires self.half(g, w, g.lv[w - 1].len() as int, n, r), self.bld(g, w, g.lv[w - 1].len() as int)
        ensures self.half(g_level(g), w + 1, 0, n, r)
    {
        reveal(TS::half);
        let d = g.lv[w - 1].len() as int;
        assert forall|y: RawArenaIndex| #[trigger] self.half1(g_level(g), w + 1, 0, n, y) by { assert(self.half1(g, w, d, n, y)); if self.nodes.contains_key(y) { self.lm_b(g, w, d, y); } }
    }
    proof fn lm_half_done(self, g: G, w: int, n: Map<RawArenaIndex, NodeS<B>>, r: RawArenaIndex, m: RawArenaIndex)
        requires self.half(g, w, g.lv[w - 1].len() as int, n, r), self.bld(g, w, g.lv[w - 1].len() as int), g.lv[w] == seq![m], self.nodes.contains_key(m)
        ensures n.contains_key(r), n.contains_key(m), m != r, n.remove(r).insert(m, NodeS { ch: self.nodes[m].ch, ..n[m] }) == self.nodes
    {
        reveal(TS::half);
        let d = g.lv[w - 1].len() as int;
        let n1 = n.remove(r).insert(m, NodeS { ch: self.nodes[m].ch, ..n[m] });
        self.lm_b_dims(g, w, d);
        self.lm_b_at(g, w, d, w, 0);
        assert(self.half1(g, w, d, n, m));
        assert forall|y: RawArenaIndex| #[trigger] n1.contains_key(y) implies n1[y] == self.nodes[y] by {
            assert(self.half1(g, w, d, n, y));
            if y != m { assert(self.nodes.contains_key(y)); self.lm_b(g, w, d, y); assert(self.b_node(g, w, d, y)); }
        }
        assert(n1 =~= self.nodes);
    }
    proof fn lm_half_at(self, g: G, w: int, d: int, n: Map<RawArenaIndex, NodeS<B>>, r: RawArenaIndex, m: RawArenaIndex)
        requires self.half(g, w, d, n, r), self.nodes.contains_key(m)
        ensures n.contains_key(m), self.half1(g, w, d, n, m), n.contains_key(r), m != r
    { reveal(TS::half); assert(self.half1(g, w, d, n, m)); }
    // the children kept elsewhere
    spec fn kept_in(self, v: Seq<TempInternalNode<B>>, row: Seq<RawArenaIndex>) -> bool {
        v.len() == row.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).arena_index == row[i] && v[i].children@ == self.nodes[row[i]].ch
    }
    // a level has no more nodes than an arena can hold
    proof fn lm_b_row(self, g: G, w: int, d: int, a: Arena<Node<B>>, r: RawArenaIndex)
        requires self.bld(g, w, d), self.half(g, w, d, a@.map_values(|n: Node<B>| ns(n)), r)
        ensures g.lv[w].len() <= 0xffff_ffff
    {
        reveal(TS::half);
        let row = g.lv[w];
        let n = a@.map_values(|n: Node<B>| ns(n));
        self.lm_b_dims(g, w, d);
        assert forall|i: int, j: int| 0 <= i < row.len() && 0 <= j < row.len() && i != j implies row[i] != row[j] by { self.lm_b_at(g, w, d, w, i); self.lm_b_at(g, w, d, w, j); }
        assert(row.no_duplicates());
        row.unique_seq_to_set();
        a.axiom_len();
        assert forall|m: RawArenaIndex| row.to_set().contains(m) implies a@.dom().contains(m) by {
            let i = choose|i: int| 0 <= i < row.len() && row[i] == m;
            self.lm_b_at(g, w, d, w, i);
            assert(self.half1(g, w, d, n, m));
            assert(n.contains_key(m));
        }
        vstd::set_lib::lemma_len_subset(row.to_set(), a@.dom());
    }
}
impl<B: BTreeTrait> BTree<B> {
//@ code src/lib.rs "FromIterator for BTree::from_iter" tags=C03,C04,C05,C13,C16
//@ rw from_iter<I: IntoIterator<Item = T>> ==> from_iter
//@ rw iter: I ==> iter: VxIter<B::Elem>
//@ rw let iter = iter.into_iter(); ==> let mut iter = iter;
//@ rw for elem in iter { ==> while let Some(elem) = iter.next() {
//@ rw elem: elem.into(), ==> elem: elem,
//@ rw struct TempInternalNode<B: BTreeTrait> { $$x } ==>
//@ rw insert(Default::default()) ==> insert(Node::<B>::default())
//@ rw cache: Default::default(), ==> cache: vx_cache0::<B>(),
//@ rw let parent = match internal_nodes.last_mut() { Some(last) if $$c => last, Some(last) => { $$b internal_nodes.last_mut().unwrap() } _ => $$z, }; ==> let vx_n = internal_nodes.len(); if !({ let last = &internal_nodes[vx_n - 1]; $$c }) { let last = &mut internal_nodes[vx_n - 1]; $$b } let vx_n = internal_nodes.len(); let parent = &mut internal_nodes[vx_n - 1];
//@ rw for mut child in children { ==> for vx_j in 0..children.len() { let mut child = vx_clone(&children[vx_j]);
    fn from_iter(iter: VxIter<B::Elem>) -> «(r:» Self«)
        requires good(iter@)
        ensures /*C13 C04 C05*/ r.inv(), /*C13 C03*/ r.all() == text(iter@), /*C13*/ r.order().len() == iter@.len(),
            forall|i: int| 0 <= i < iter@.len() ==> /*C13*/ r.leaf_nodes@[#[trigger] r.order()[i]].elem == iter@[i]»
    {
        «let ghost d0 = iter@;»
        let mut tree = Self::new();
        «let ghost r0 = tree.root.ix(); let ghost c0 = tree.root_cache; let ghost mut t = TS::<B> { nodes: Map::empty(), leaves: Map::empty(), root: tree.root }; let ghost mut g = g_bare(); let ghost mut w = 1int;
        proof { TS::<B>::lm_b_bare(tree.root); tree.lm_ts(); reveal(TS::half); assert(tree.ts().nodes.dom() =~= t.nodes.dom().insert(r0)); assert(t.half(g, 1, 0, tree.ts().nodes, r0)); tree.ts().lm_root(tree.g@); }»
        let mut iter = iter;
        let min_size = iter.size_hint().0;
        tree.leaf_nodes.reserve(min_size);
        let max_child_size = MAX_CHILDREN_NUM - 2;
        let parent_num = (min_size + max_child_size - 1) / max_child_size;
        let mut internal_nodes: Vec<TempInternalNode<B>> = Vec::with_capacity(parent_num);
        «let ghost n0 = tree.ts().nodes;»
        let index = tree.in_nodes.insert(Node::<B>::default());
        «proof {
            t.lm_half_add(g, 1, 0, n0, r0, index, 255);
            t.lm_b_add(g, 1, 0, index, 255);
            assert(tree.ts().nodes =~= n0.insert(index, NodeS { par: None, slot: 255, ch: Seq::empty() }));
            t = t.b_add(index, 255); g = g_push(g, 1, index, 0);
        }»
        internal_nodes.push(TempInternalNode {
            children: HeaplessVec::new(),
            cache: vx_cache0::<B>(),
            arena_index: index,
        });
        while let Some(elem) = iter.next()
            «invariant_except_break true
            invariant good(iter@), iter@.len() <= d0.len(), iter@ == d0.subrange(d0.len() - iter@.len(), d0.len() as int), 2 <= max_child_size < MAX_CHILDREN_NUM,
                t.bld(g, 1, d0.len() - iter@.len()), t.half(g, 1, d0.len() - iter@.len(), tree.ts().nodes, r0), tree.leaf_nodes@ == t.leaves, tree.root == ArenaIndex::Internal(r0),
                internal_nodes@.len() > 0, t.kept_in(internal_nodes@, g.lv[1]), t.n(g.lv[1].last()) <= max_child_size, internal_nodes@.len() > 1 ==> t.n(g.lv[1].last()) > 0,
                forall|i: int| 0 <= i < d0.len() - iter@.len() ==> t.leaves[#[trigger] g.lv[0][i]].elem == d0[i],
            ensures iter@.len() == 0
            decreases iter@.len()»
        {
            «let ghost j = d0.len() - iter@.len() - 1;
            proof { assert(elem == d0[j]); t.lm_b_dims(g, 1, j); t.lm_b_at(g, 1, j, 1, g.lv[1].len() - 1); }»
            let vx_n = internal_nodes.len();
            if !({
                let last = &internal_nodes[vx_n - 1];
                last.children.len() < max_child_size
            }) {
                «let ghost p0 = g.lv[1].last(); let ghost v0 = internal_nodes@;
                proof { assert forall|i: int| 0 <= i < v0.last().children@.len() implies B::cok((#[trigger] v0.last().children@[i]).cache) by { assert(t.nodes[p0].ch[i] == v0.last().children@[i]); } }»
                let last = &mut internal_nodes[vx_n - 1];
                B::calc_cache_internal(&mut last.cache, &last.children);
                «let ghost n1 = tree.ts().nodes; let ghost t1 = t; let ghost g1 = g;»
                let index = tree.in_nodes.insert(Node::<B>::default());
                «proof {
                    t.lm_half_add(g, 1, j, n1, r0, index, 255);
                    t.lm_b_add(g, 1, j, index, 255);
                    assert(tree.ts().nodes =~= n1.insert(index, NodeS { par: None, slot: 255, ch: Seq::empty() }));
                    t = t.b_add(index, 255); g = g_push(g, 1, index, j);
                }»
                internal_nodes.push(TempInternalNode {
                    children: HeaplessVec::new(),
                    cache: vx_cache0::<B>(),
                    arena_index: index,
                });
                «proof {
                    assert forall|i: int| 0 <= i < internal_nodes@.len() implies (#[trigger] internal_nodes@[i]).arena_index == g.lv[1][i] && internal_nodes@[i].children@ == t.nodes[g.lv[1][i]].ch by {
                        if i < v0.len() { assert(v0[i].arena_index == g1.lv[1][i]); t1.lm_b_at(g1, 1, j, 1, i); } else { assert(internal_nodes@[i].children@ =~= t.nodes[index].ch); }
                    }
                }»
            }
            let vx_n = internal_nodes.len();
            «let ghost p = g.lv[1].last(); let ghost t2 = t; let ghost g2 = g; let ghost v2 = internal_nodes@;»
            let parent = &mut internal_nodes[vx_n - 1];
            «proof { assert(parent.arena_index == p && parent.children@ == t2.nodes[p].ch); }»
            let leaf = LeafNode {
                elem: elem,
                parent: parent.arena_index,
            };
            let cache = B::get_elem_cache(&leaf.elem);
            let leaf_index = tree.leaf_nodes.insert(leaf);
            parent
                .children
                .push(Child {
                    arena: ArenaIndex::Leaf(leaf_index),
                    cache,
                })
                .unwrap();
            «proof {
                let l = leaf_index;
                t2.lm_b_leaf(g2, j, p, l, d0[j]);
                t2.lm_half_leaf(g2, j, tree.ts().nodes, r0, p, l, d0[j]);
                t = t2.b_leaf(p, l, d0[j]); g = g_leaf(g2, l);
                assert forall|i: int| 0 <= i < j + 1 implies t.leaves[#[trigger] g.lv[0][i]].elem == d0[i] by { if i < j { reveal(TS::bld); assert(t2.lfl_ok(g2, i)); assert(g2.lv[0][i] != l); } }
                assert forall|i: int| 0 <= i < internal_nodes@.len() implies (#[trigger] internal_nodes@[i]).arena_index == g.lv[1][i] && internal_nodes@[i].children@ == t.nodes[g.lv[1][i]].ch by {
                    assert(v2[i].arena_index == g2.lv[1][i]); t2.lm_b_at(g2, 1, j, 1, i);
                    if i == v2.len() - 1 { assert(internal_nodes@[i].children@ =~= t.nodes[p].ch); } else { assert(internal_nodes@[i] == v2[i]); t2.lm_b_at(g2, 1, j, 1, v2.len() - 1); }
                }
                assert(iter@ =~= d0.subrange(d0.len() - iter@.len(), d0.len() as int));
            }»
        }
        «proof { t.lm_b_dims(g, 1, d0.len() as int); }»
        while internal_nodes.len() > 1
            «invariant 2 <= max_child_size < MAX_CHILDREN_NUM, w >= 1,
                t.bld(g, w, g.lv[w - 1].len() as int), t.half(g, w, g.lv[w - 1].len() as int, tree.ts().nodes, r0), tree.leaf_nodes@ == t.leaves, tree.root == ArenaIndex::Internal(r0),
                internal_nodes@.len() > 0, t.kept_in(internal_nodes@, g.lv[w]), w > 1 || internal_nodes@.len() > 1 ==> t.n(g.lv[w].last()) > 0,
                g.lv[0].len() == d0.len(), forall|i: int| 0 <= i < d0.len() ==> t.leaves[#[trigger] g.lv[0][i]].elem == d0[i],
            decreases internal_nodes@.len()»
        {
            «let ghost row = g.lv[w];
            proof { t.lm_b_dims(g, w, g.lv[w - 1].len() as int); t.lm_b_row(g, w, g.lv[w - 1].len() as int, tree.in_nodes, r0);
                t.lm_half_level(g, w, tree.ts().nodes, r0); t.lm_b_level(g, w); g = g_level(g); w = w + 1; }»
            let parent_num = (internal_nodes.len() + max_child_size - 1) / max_child_size;
            let children = vx_replace(&mut internal_nodes, Vec::with_capacity(parent_num));
            «let ghost n1 = tree.ts().nodes; let ghost t1 = t; let ghost g1 = g;»
            let index = tree.in_nodes.insert(Node::<B>::default());
            «proof {
                t.lm_half_add(g, w, 0, n1, r0, index, 255);
                t.lm_b_add(g, w, 0, index, 255);
                assert(tree.ts().nodes =~= n1.insert(index, NodeS { par: None, slot: 255, ch: Seq::empty() }));
                t = t.b_add(index, 255); g = g_push(g, w, index, 0);
                assert forall|i: int| 0 <= i < children@.len() implies (#[trigger] children@[i]).arena_index == g.lv[w - 1][i] && children@[i].children@ == t.nodes[g.lv[w - 1][i]].ch by { t1.lm_b_at(g1, w, 0, w - 1, i); }
            }»
            internal_nodes.push(TempInternalNode {
                children: HeaplessVec::new(),
                cache: vx_cache0::<B>(),
                arena_index: index,
            });
            let mut parent_slot = 0;
            «proof { assert(internal_nodes@[0].children@ =~= t.nodes[index].ch); }»
            for vx_j in 0..children.len()
                «invariant 2 <= max_child_size < MAX_CHILDREN_NUM, w >= 2,
                    t.bld(g, w, vx_j as int), t.half(g, w, vx_j as int, tree.ts().nodes, r0), tree.leaf_nodes@ == t.leaves, tree.root == ArenaIndex::Internal(r0),
                    internal_nodes@.len() > 0, t.kept_in(internal_nodes@, g.lv[w]), t.n(g.lv[w].last()) <= max_child_size, vx_j > 0 ==> t.n(g.lv[w].last()) > 0, internal_nodes@.len() <= vx_j + 1,
                    internal_nodes@.len() == 1 || internal_nodes@.len() < vx_j,
                    max_child_size * (internal_nodes@.len() - 1) + t.n(g.lv[w].last()) == vx_j, parent_slot < max_child_size,
                    parent_slot == t.n(g.lv[w].last()) || parent_slot == 0 && t.n(g.lv[w].last()) == max_child_size,
                    children@.len() == g.lv[w - 1].len(), forall|i: int| vx_j <= i < children@.len() ==> (#[trigger] children@[i]).arena_index == g.lv[w - 1][i] && children@[i].children@ == t.nodes[g.lv[w - 1][i]].ch,
                    g.lv[0].len() == d0.len(), forall|i: int| 0 <= i < d0.len() ==> t.leaves[#[trigger] g.lv[0][i]].elem == d0[i]»
            {
                «let ghost j = vx_j as int; let ghost t0 = t; let ghost g0 = g; let ghost v0 = internal_nodes@; let ghost k = max_child_size as int;
                proof { t.lm_b_dims(g, w, j); t.lm_b_at(g, w, j, w, g.lv[w].len() - 1); assert(g.lv[w].len() > 0); }»
                let mut child = vx_clone(&children[vx_j]);
                let vx_n = internal_nodes.len();
                if !({
                    let last = &internal_nodes[vx_n - 1];
                    last.children.len() < max_child_size
                }) {
                    «proof {
                        let p0 = g.lv[w].last();
                        assert forall|i: int| 0 <= i < v0.last().children@.len() implies B::cok((#[trigger] v0.last().children@[i]).cache) by { assert(t.nodes[p0].ch[i] == v0.last().children@[i]); }
                        let a = v0.len() as int;
                        assert(k * (a - 1) + k == k * a) by(nonlinear_arith);
                        assert(k * a >= 2 * a) by(nonlinear_arith) requires k >= 2, a >= 0;
                    }»
                    let last = &mut internal_nodes[vx_n - 1];
                    B::calc_cache_internal(&mut last.cache, &last.children);
                    «let ghost n1 = tree.ts().nodes;»
                    let index = tree.in_nodes.insert(Node::<B>::default());
                    internal_nodes.push(TempInternalNode {
                        children: HeaplessVec::new(),
                        cache: vx_cache0::<B>(),
                        arena_index: index,
                    });
                    «proof {
                        t0.lm_half_add(g0, w, j, n1, r0, index, 255);
                        t0.lm_b_add(g0, w, j, index, 255);
                        assert(tree.ts().nodes =~= n1.insert(index, NodeS { par: None, slot: 255, ch: Seq::empty() }));
                        t = t0.b_add(index, 255); g = g_push(g0, w, index, j);
                        assert forall|i: int| 0 <= i < internal_nodes@.len() implies (#[trigger] internal_nodes@[i]).arena_index == g.lv[w][i] && internal_nodes@[i].children@ == t.nodes[g.lv[w][i]].ch by {
                            if i < v0.len() { assert(v0[i].arena_index == g0.lv[w][i]); t0.lm_b_at(g0, w, j, w, i); } else { assert(internal_nodes@[i].children@ =~= t.nodes[index].ch); }
                        }
                        assert forall|i: int| j <= i < children@.len() implies (#[trigger] children@[i]).arena_index == g.lv[w - 1][i] && children@[i].children@ == t.nodes[g.lv[w - 1][i]].ch by { t0.lm_b_at(g0, w, j, w - 1, i); }
                    }»
                }
                let vx_n = internal_nodes.len();
                «let ghost p = g.lv[w].last(); let ghost c = g.lv[w - 1][j]; let ghost t2 = t; let ghost v2 = internal_nodes@; let ghost n2 = tree.ts().nodes;
                proof {
                    t2.lm_b_child(g, w, j, p, c);
                    t2.lm_half_at(g, w, j, n2, r0, c);
                    t2.lm_b_at(g, w, j, w - 1, j);
                    assert(children@[j].arena_index == c);
                    assert(child.children@ == t2.nodes[c].ch);
                    assert forall|i: int| 0 <= i < child.children@.len() implies B::cok((#[trigger] child.children@[i]).cache) by { assert(t2.nodes[c].ch[i] == child.children@[i]); }
                    t = t2.b_child(p, c);
                    assert(tree.in_nodes@.contains_key(c));
                }»
                let parent = &mut internal_nodes[vx_n - 1];
                «proof { assert(parent.arena_index == p && parent.children@ == t2.nodes[p].ch); }»
                B::calc_cache_internal(&mut child.cache, &child.children);
                «proof { assert(child.cache == B::sum(t2.kids(c))); }»
                let child_node = tree.in_nodes.get_mut(child.arena_index).unwrap();
                child_node.children = child.children;
                child_node.parent = Some(ArenaIndex::Internal(parent.arena_index));
                child_node.parent_slot = parent_slot;
                «proof { let ps = parent_slot as int; assert((ps + 1) % k == if ps + 1 == k { 0 } else { ps + 1 }) by(nonlinear_arith) requires 0 <= ps < k; }»
                parent_slot = (parent_slot + 1) % (max_child_size as u8);
                parent
                    .children
                    .push(Child {
                        arena: ArenaIndex::Internal(child.arena_index),
                        cache: child.cache,
                    })
                    .unwrap();
                «proof {
                    let x = t.nodes[c];
                    assert(tree.ts().nodes =~= n2.insert(c, x));
                    t2.lm_half_child(g, w, j, n2, r0, p, c, x);
                    assert forall|i: int| 0 <= i < internal_nodes@.len() implies (#[trigger] internal_nodes@[i]).arena_index == g.lv[w][i] && internal_nodes@[i].children@ == t.nodes[g.lv[w][i]].ch by {
                        assert(v2[i].arena_index == g.lv[w][i]); t2.lm_b_at(g, w, j, w, i); t2.lm_b_at(g, w, j, w, v2.len() - 1);
                        if i == v2.len() - 1 { assert(internal_nodes@[i].children@ =~= t.nodes[p].ch); } else { assert(internal_nodes@[i] == v2[i]); }
                    }
                    assert forall|i: int| j + 1 <= i < children@.len() implies (#[trigger] children@[i]).arena_index == g.lv[w - 1][i] && children@[i].children@ == t.nodes[g.lv[w - 1][i]].ch by { t2.lm_b_at(g, w, j, w - 1, i); t2.lm_b_at(g, w, j, w, v2.len() - 1); }
                }»
            }
            «proof {
                let (k, a, r, n) = (max_child_size as int, internal_nodes@.len() as int, t.n(g.lv[w].last()), children@.len() as int);
                assert((n + k - 1) / k == a) by(nonlinear_arith) requires k >= 2, a >= 1, 1 <= r <= k, k * (a - 1) + r == n;
            }»
            assert!(parent_num == internal_nodes.len());
        }
        assert!(internal_nodes.len() == 1);
        «let ghost w9 = internal_nodes@; let ghost n9 = tree.ts().nodes; let ghost r = w9[0].arena_index;»
        «proof {
            t.lm_b_dims(g, w, g.lv[w - 1].len() as int);
            t.lm_b_at(g, w, g.lv[w - 1].len() as int, w, 0);
            assert(g.lv[w] =~= seq![r]);
            t.lm_half_done(g, w, n9, r0, r);
            assert forall|i: int| 0 <= i < w9[0].children@.len() implies B::cok((#[trigger] w9[0].children@[i]).cache) by { assert(t.nodes[r].ch[i] == w9[0].children@[i]); }
            B::law_c0();
        }»
        let node = internal_nodes.remove(0);
        B::calc_cache_internal(&mut tree.root_cache, &node.children);
        tree.in_nodes.remove(tree.root.unwrap());
        tree.root = ArenaIndex::Internal(node.arena_index);
        let root = tree.root.unwrap();
        tree.in_nodes.get_mut(root).unwrap().children = node.children;
        «tree.g = Ghost(g);
        proof {
            let t9 = TS { root: tree.root, ..t };
            t.lm_b_root(g, w, g.lv[w - 1].len() as int, tree.root);
            assert(tree.ts().nodes =~= t.nodes);
            assert(tree.ts() == t9);
            t9.lm_b_done(g, w);
            assert forall|i: int| 0 <= i < d0.len() implies tree.leaf_nodes@[#[trigger] g.lv[0][i]] == t.leaves[g.lv[0][i]] by {}
            assert(tree.items() =~= contents(d0));
        }»
        tree
    }
//@ end
}
