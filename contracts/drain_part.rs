// iter.rs: draining a stretch of leaves. (C09)
//@ rw end_result.map(|x| x.leaf.into()).unwrap_or_else(|| $e) ==> match end_result { Some(x) => x.leaf.into(), None => $e }
//@ rw iter::Drain ==> Drain
//@ rw current_path: Default::default() ==> current_path: NodePath::new()
impl<B: BTreeTrait> TS<B> {
    // this tree without the leaves at the places from a to b, which its nodes still list
    spec fn thin(self, g: G, a: int, b: int) -> TS<B> {
        TS { nodes: self.nodes, leaves: self.leaves.remove_keys(self.leaves.dom().filter(|l: RawArenaIndex| a <= (g.lpos)(l) < b)), root: self.root }
    }
    proof fn lm_thin0(self, g: G, a: int)
        ensures self.thin(g, a, a) == self
    { assert(self.thin(g, a, a).leaves =~= self.leaves); }
    proof fn lm_thin(self, g: G, a: int, b: int)
        requires self.lnk(g), 0 <= a <= b < g.lv[0].len()
        ensures self.thin(g, a, b).leaves.contains_key(g.lv[0][b]), self.thin(g, a, b).leaves[g.lv[0][b]] == self.leaves[g.lv[0][b]],
            self.thin(g, a, b).leaves.remove(g.lv[0][b]) == self.thin(g, a, b + 1).leaves
    {
        self.lm_root(g);
        self.lm_at(g, 0, b);
        assert forall|l: RawArenaIndex| self.leaves.contains_key(l) && (g.lpos)(l) == b implies l == g.lv[0][b] by { self.lm_leaf(g, l); }
        assert(self.thin(g, a, b).leaves.remove(g.lv[0][b]) =~= self.thin(g, a, b + 1).leaves);
    }
    proof fn lm_path_same(self, o: TS<B>, p: Seq<Idx>)
        requires o.path_ok(p), self.nodes == o.nodes, self.root == o.root
        ensures self.path_ok(p)
    { assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] self.step_ok(p, i) by { assert(o.step_ok(p, i)); } }
}
impl<B: BTreeTrait> BTree<B> {
    // how much content is before the leaf at place i
    spec fn lead(&self, i: int) -> int { flat(self.items().subrange(0, i)).len() as int }
    // the leaf l after a cut at c
    proof fn lm_cut_at(&self, o: &Self, c: Cursor, new_leaf: Option<ArenaIndex>, l: RawArenaIndex)
        requires o.ts().lnk(o.g@), self.ts().lnk(self.g@), o.valid(c), self.cut_leaf(o, c, new_leaf), o.leaf_nodes@.contains_key(l)
        ensures self.leaf_nodes@.contains_key(l), self.lead((self.g@.lpos)(l)) == o.lead((o.g@.lpos)(l)),
            (self.g@.lpos)(l) == (o.g@.lpos)(l) + if new_leaf is Some && (o.g@.lpos)(l) > o.at(c.leaf) { 1int } else { 0 },
            0 <= (o.g@.lpos)(l) < o.order().len(), l != c.leaf.0 ==> self.ts().same_leaf(o.ts(), l),
            self.order().len() == o.order().len() + if new_leaf is Some { 1int } else { 0 },
            (o.g@.lpos)(l) == o.at(c.leaf) ==> l == c.leaf.0,
    {
        o.lm_at_o(); self.lm_at_o();
        o.ts().lm_leaf(o.g@, l);
        o.ts().lm_leaf(o.g@, c.leaf.0);
        match new_leaf {
            None => { assert(self.items() =~= o.items()); assert(self.order() == o.order()); },
            Some(a) => {
                let x = a.ix();
                let i = o.at(c.leaf);
                let j = (o.g@.lpos)(l);
                let no = o.order().len() as int;
                self.lm_cut_all(o, c, new_leaf);
                assert forall|q: int| i + 1 <= q < no implies self.order()[q + 1] == #[trigger] o.order()[q] by {}
                self.lm_items_part(o, c.leaf.0, x, x, i, i + 1, 1);
                o.leaf_nodes.axiom_used(l);
                if l != c.leaf.0 { self.ts().lm_same_but(o.ts(), c.leaf.0, x, x, l); }
                if j <= i {
                    assert(self.order()[j] == l);
                    assert(self.items().subrange(0, j) =~= self.items().subrange(0, i).subrange(0, j));
                    assert(o.items().subrange(0, j) =~= o.items().subrange(0, i).subrange(0, j));
                } else {
                    assert(self.order()[j + 1] == l);
                    let (sa, sb) = (self.items().subrange(0, j + 1), self.items().subrange(j + 1, no + 1));
                    let (oa, ob) = (o.items().subrange(0, j), o.items().subrange(j, no));
                    assert(self.items() =~= sa + sb);
                    assert(o.items() =~= oa + ob);
                    lm_flat_cat(sa, sb); lm_flat_cat(oa, ob);
                    assert(sb =~= self.items().subrange(i + 2, no + 1).subrange(j - i - 1, no - i - 1));
                    assert(ob =~= o.items().subrange(i + 1, no).subrange(j - i - 1, no - i - 1));
                    assert(self.items().subrange(i + 2, no + 1) == o.items().subrange(i + 1, no));
                    assert(sb == ob);
                    assert(self.all() == flat(sa) + flat(sb));
                    assert(o.all() == flat(oa) + flat(ob));
                    assert(self.all().len() == flat(sa).len() + flat(sb).len());
                    assert(o.all().len() == flat(oa).len() + flat(ob).len());
                    assert(flat(sa).len() == flat(oa).len());
                }
            },
        }
    }
    proof fn lm_lead_end(&self, i: int)
        ensures i == self.order().len() ==> self.lead(i) == self.all().len()
    { if i == self.order().len() { assert(self.items().subrange(0, i) =~= self.items()); } }
    // the place of the cursor a is not behind that of b
    spec fn upto(&self, a: Cursor, b: Cursor) -> bool { self.at(a.leaf) < self.at(b.leaf) || a.leaf == b.leaf && a.offset <= b.offset }
    spec fn edge(&self, c: Cursor) -> bool { c.offset == 0 || c.offset == self.el(c.leaf.0).len() }
}
//@ code src/iter.rs "struct TempStore" tags=
struct TempStore {
    start_path: NodePath,
    end_path: NodePath,
    leaf_before_drain_range: Option<ArenaIndex>,
    leaf_after_drain_range: Option<ArenaIndex>,
}
//@ end
//@ code src/iter.rs "struct Drain" tags=
struct Drain<'a, B: BTreeTrait> {
    tree: &'a mut BTree<B>,
    current_path: NodePath,
    done: bool,
    end_cursor: Option<Cursor>,
    store: Option<Box<TempStore>>,
    «// the tree before the first leaf was taken, the stretch of leaves, and the first of them not taken yet
    o: Ghost<BTree<B>>, i0: Ghost<int>, i1: Ghost<int>, cur: Ghost<int>,»
}
//@ end
impl TempStore {
    spec fn ok<B: BTreeTrait>(&self, o: &BTree<B>, i0: int, i1: int) -> bool {
        let g = o.g@;
        let n = o.order().len();
        &&& o.ts().path_ok(self.start_path@) && self.start_path@.len() == g.lv.len() && self.start_path@.last().arena == ArenaIndex::Leaf(g.lv[0][i0])
        &&& o.ts().path_ok(self.end_path@) && self.end_path@.len() == g.lv.len() && self.end_path@.last().arena == ArenaIndex::Leaf(g.lv[0][if i1 < n { i1 } else { n - 1 }])
        &&& self.leaf_before_drain_range == if i0 > 0 { Some(ArenaIndex::Leaf(g.lv[0][i0 - 1])) } else { None::<ArenaIndex> }
        &&& self.leaf_after_drain_range == if i1 < n { Some(ArenaIndex::Leaf(g.lv[0][i1])) } else { None::<ArenaIndex> }
    }
}
// the place behind a cut
proof fn lm_cut_pos<B: BTreeTrait>(t: &BTree<B>, o: &BTree<B>, c: Cursor, new_leaf: Option<ArenaIndex>, q: Option<Cursor>)
    requires o.ts().lnk(o.g@), t.ts().lnk(t.g@), o.valid(c), t.cut_leaf(o, c, new_leaf), o.ts().elems_ok(),
        q == (if new_leaf is Some { Some(Cursor { leaf: LeafIndex((new_leaf->0).ix()), offset: 0 }) }
            else if c.offset == 0 { Some(c) }
            else if o.at(c.leaf) + 1 < o.order().len() { Some(Cursor { leaf: LeafIndex(o.order()[o.at(c.leaf) + 1]), offset: 0 }) }
            else { None })
    ensures t.all() == o.all(),
        q is Some ==> (q->0).offset == 0 && t.has((q->0).leaf) && t.lead(t.at((q->0).leaf)) == o.off(c)
            && t.at((q->0).leaf) == o.at(c.leaf) + if c.offset == 0 { 0int } else { 1 },
        q is None ==> o.off(c) == o.all().len() && c.offset > 0 && o.at(c.leaf) + 1 == t.order().len(),
{
    t.lm_cut_all(o, c, new_leaf);
    o.lm_at_o(); t.lm_at_o();
    o.ts().lm_leaf(o.g@, c.leaf.0);
    o.ts().lm_elems_ok(c.leaf.0);
    o.leaf_nodes@[c.leaf.0].elem.law_len();
    o.lm_next_off(c.leaf.0);
    o.lm_lead_end(o.at(c.leaf) + 1);
    match new_leaf {
        None => { assert(t.items() =~= o.items()); assert(t.order() == o.order()); },
        Some(a) => { assert(t.order()[o.at(c.leaf) + 1] == a.ix()); },
    }
}
impl<'a, B: BTreeTrait> Drain<'a, B> {
    spec fn ok(&self) -> bool {
        let o = self.o@;
        let n = o.order().len();
        match self.store {
            None => self.done && self.tree.inv() && self.o@ == *self.tree,
            Some(st) => {
                &&& o.inv() && o.g@.lv.len() <= 16 && 0 <= self.i0@ <= self.cur@ <= self.i1@ <= n && self.i0@ < n
                &&& self.tree.ts() == o.ts().thin(o.g@, self.i0@, self.cur@) && self.tree.g == o.g && self.tree.root_cache == o.root_cache
                &&& self.tree.in_nodes == o.in_nodes && self.tree.leaf_nodes.used() == o.leaf_nodes.used()
                &&& st.ok(&o, self.i0@, self.i1@)
                &&& self.end_cursor == if self.i1@ < n { Some(Cursor { leaf: LeafIndex(o.order()[self.i1@]), offset: 0 }) } else { None::<Cursor> }
                &&& self.done ==> self.cur@ == self.i1@ == n
                &&& !self.done ==> self.cur@ < n && o.ts().path_ok(self.current_path@) && self.current_path@.len() == o.g@.lv.len()
                        && self.current_path@.last().arena == ArenaIndex::Leaf(o.order()[self.cur@])
            },
        }
    }
    // the tree u with the leaves cut at the two ends of the stretch
    spec fn of(&self, u: &BTree<B>, s: Cursor, e: Cursor) -> bool {
        let o = self.o@;
        &&& o.all() == u.all() && o.uses(u)
        &&& forall|l: RawArenaIndex| #[trigger] u.leaf_nodes@.contains_key(l) && l != s.leaf.0 && l != e.leaf.0 ==> o.ts().same_leaf(u.ts(), l)
        &&& self.store is None ==> u.off(s) == u.all().len()
        &&& self.store is Some ==> o.lead(self.i0@) == u.off(s) && o.lead(self.i1@) == u.off(e) && self.cur@ == self.i0@
    }
//@ code src/iter.rs "Drain::new" tags=C09,C16
    fn new(
        tree: &'a mut BTree<B>,
        start_result: Option<QueryResult>,
        end_result: Option<QueryResult>,
    ) -> «(r:» Self«)
        requires old(tree).inv(), old(tree).g@.lv.len() <= 14,
            start_result is Some && end_result is Some ==> old(tree).can_drain((start_result->0).cursor, (end_result->0).cursor),
        ensures r.ok(), *final(r.tree) == *final(tree),
            start_result is None || end_result is None ==> r.store is None && r.o@ == *old(tree),
            start_result is Some && end_result is Some ==> /*C09*/ r.of(old(tree), (start_result->0).cursor, (end_result->0).cursor)»
    {
        «let ghost u0 = *tree;»
        if start_result.is_none() || end_result.is_none() {
            return Self::none(tree);
        }

        let start_result = start_result.unwrap();
        let end_result = end_result.unwrap();
        «let ghost s = start_result.cursor; let ghost e = end_result.cursor;
        let ghost mut na: Option<ArenaIndex> = None; let ghost mut nb: Option<ArenaIndex> = None;
        proof { u0.ts().lm_root(u0.g@); u0.lm_at_o(); u0.ts().lm_leaf(u0.g@, e.leaf.0); u0.ts().lm_leaf(u0.g@, s.leaf.0); u0.ts().lm_elems_ok(s.leaf.0); u0.ts().lm_elems_ok(e.leaf.0); }»
        let end_result = «{ let vx_r =» tree.split_leaf_if_needed(end_result.cursor)«; proof { na = vx_r.new_leaf; } vx_r }».new_pos;
        «let ghost u1 = *tree;
        proof {
            u1.lm_cut_at(&u0, e, na, s.leaf.0); u1.lm_cut_at(&u0, e, na, e.leaf.0);
            u1.lm_at_o();
            u0.leaf_nodes@[e.leaf.0].elem.law_len(); u0.leaf_nodes@[s.leaf.0].elem.law_len();
            u1.ts().lm_elems_ok(s.leaf.0); u1.leaf_nodes@[s.leaf.0].elem.law_len();
            lm_cut_pos(&u1, &u0, e, na, end_result);
            assert(u1.valid(s));
        }»
        let Some(start_result) = «{ let vx_r =» tree.split_leaf_if_needed(start_result.cursor)«; proof { nb = vx_r.new_leaf; lm_cut_pos(&*tree, &u1, s, nb, vx_r.new_pos); 
            let u2 = *tree;
            assert forall|l: RawArenaIndex| #[trigger] u0.leaf_nodes@.contains_key(l) && l != s.leaf.0 && l != e.leaf.0 implies u2.ts().same_leaf(u0.ts(), l) by {
                u1.lm_cut_at(&u0, e, na, l); u2.lm_cut_at(&u1, s, nb, l);
            }
            } vx_r }».new_pos else {
            // if start from the right most leaf, the range is empty
            return Self::none(tree);
        };
        «let ghost u2 = *tree; let ghost g = u2.g@; let ghost n = u2.order().len() as int;
        let ghost i0 = u2.at(start_result.leaf); let ghost i1 = match end_result { Some(c) => u2.at(c.leaf), None => n };
        proof {
            u2.lm_at_o(); u2.lm_lead_end(n);
            if let Some(c) = end_result { u2.lm_cut_at(&u1, s, nb, c.leaf.0); }
            u2.ts().lm_root(g);
            u2.ts().lm_leaf(g, start_result.leaf.0);
            u2.ts().lm_thin0(g, i0);
            assert(u2.ts().thin(g, i0, i0) == u2.ts());
        }»
        let start_path = tree.get_path(start_result.leaf.into());
        let end_path = tree.get_path(
            match end_result {
                Some(x) => x.leaf.into(),
                None => tree.last_leaf().unwrap().into()
            },
        );
        let leaf_before_drain_range = {
            let node_idx = start_path.last().unwrap().arena;
            if start_result.offset == 0 {
                tree.prev_same_level_in_node(node_idx)
            } else {
                Some(node_idx)
            }
        };
        let leaf_after_drain_range = {
            // after splitting, the end cursor is at the start of the first leaf
            // that stays in the tree, which may have zero length
            end_result.map(|x«: Cursor»| «-> (a: ArenaIndex) ensures a == ArenaIndex::Leaf(x.leaf.0) {» x.leaf.into() «}»)
        };
        Self {
            current_path: tree.get_path(start_result.leaf.into()),
            tree,
            done: false,
            end_cursor: end_result,
            store: Some(Box::new(TempStore {
                start_path,
                end_path,
                leaf_before_drain_range,
                leaf_after_drain_range,
            })),
            «o: Ghost(u2), i0: Ghost(i0), i1: Ghost(i1), cur: Ghost(i0),»
        }
    }
//@ end
//@ code src/iter.rs "Drain::none" tags=C09,C16
    fn none(tree: &'a mut BTree<B>) -> «(r:» Drain<B>«)
        requires old(tree).inv()
        ensures r.ok(), r.store is None, *final(r.tree) == *final(tree), r.o@ == *old(tree)»
    {
        «let ghost u = *tree;»
        Self {
            current_path: NodePath::new(),
            done: true,
            end_cursor: None,
            tree,
            store: None,
            «o: Ghost(u), i0: Ghost(0), i1: Ghost(0), cur: Ghost(0),»
        }
    }
//@ end
//@ code src/iter.rs "Iterator for Drain::next" tags=C09,C16
//@ rw Option<Self::Item> ==> Option<B::Elem>
    fn next(&mut self) -> «(r:» Option<B::Elem>«)
        requires old(self).ok()
        ensures final(self).ok(), *final(final(self).tree) == *final(old(self).tree), final(self).o == old(self).o, final(self).i0 == old(self).i0, final(self).i1 == old(self).i1,
            final(self).store == old(self).store,
            r is None ==> final(self).cur == old(self).cur && (old(self).store is Some ==> /*C09*/ old(self).cur@ == old(self).i1@),
            // the elements of the stretch, in order
            r is Some ==> old(self).store is Some && /*C09*/ old(self).cur@ < old(self).i1@ && final(self).cur@ == old(self).cur@ + 1
                && /*C09*/ r->0 == old(self).o@.leaf_nodes@[old(self).o@.order()[old(self).cur@]].elem»
    {
        «let ghost o = self.o@; let ghost g = o.g@; let ghost k = self.cur@; let ghost n = o.order().len() as int;
        proof {
            if !self.done {
                o.ts().lm_root(g); o.lm_at_o();
                o.ts().lm_thin(g, self.i0@, k);
                assert(o.ts() == TS { leaves: o.ts().leaves, nodes: self.tree.ts().nodes, root: self.tree.root });
                assert(self.tree.ks().shape(g));
                self.tree.ks().lm_path_same(o.ts(), self.current_path@);
            }
        }»
        if self.done {
            return None;
        }

        // end iteration if pointing to the end leaf
        if let Some(end_cursor) = self.end_cursor {
            if end_cursor.leaf.0 == self.current_path.last().unwrap().arena.unwrap_leaf() {
                «proof { assert(o.order()[self.i1@] == o.order()[k]); }»
                return None;
            }
        }

        let idx = *self.current_path.last().unwrap();
        if !self.tree.next_sibling(&mut self.current_path) {
            self.done = true;
        }
        «proof {
            if !self.done {
                o.ts().lm_path_same(self.tree.ks(), self.current_path@);
                lm_path_leaf(o.ts(), g, self.current_path@);
            }
        }»

        // NOTE: we removed the node here, the tree is in an invalid state
        let node = self
            .tree
            .leaf_nodes
            .remove(idx.arena.unwrap_leaf())
            .unwrap();
        «proof { self.cur = Ghost(k + 1); }»
        Some(node.elem)
    }
//@ end
}
impl<'a, B: BTreeTrait> Drain<'a, B> {
//@ code src/iter.rs "Drain::ensure_finished" tags=C09,C16
    fn ensure_finished(&mut self)«
        requires old(self).ok()
        ensures final(self).ok(), *final(final(self).tree) == *final(old(self).tree), final(self).o == old(self).o, final(self).i0 == old(self).i0, final(self).i1 == old(self).i1,
            final(self).store == old(self).store, final(self).store is Some ==> final(self).cur == final(self).i1»
    {
        while self.next().is_some()
            «invariant self.ok(), *final(self.tree) == *final(old(self).tree), self.o == old(self).o, self.i0 == old(self).i0, self.i1 == old(self).i1, self.store == old(self).store,
            decreases self.i1@ - self.cur@»
        {}
    }
//@ end
}
impl<B: BTreeTrait> BTree<B> {
    // a stretch Drain can take out
    spec fn can_drain(&self, s: Cursor, e: Cursor) -> bool {
        self.valid(s) && self.valid(e) && self.upto(s, e) && (B::USE_DIFF || self.edge(s) && self.edge(e))
    }
    // where a query ends
    spec fn got<Q: Query<B>>(&self, q: Q::QueryArg) -> QueryResult { self.ts().descend(self.g@, Q::q_init(q), q, self.ts().rt(), true).0 }
    spec fn asks<Q: Query<B>>(&self, q: Q::QueryArg) -> bool { self.ts().descent_ok(self.g@, Q::q_init(q), q, self.ts().rt()) }
//@ code src/lib.rs "BTree::drain" tags=C09,C16
    fn drain(&mut self, range: Range<QueryResult>) -> «(r:» Drain<B>«)
        requires old(self).inv(), old(self).g@.lv.len() <= 14, old(self).can_drain(range.start.cursor, range.end.cursor)
        ensures r.ok(), *final(r.tree) == *final(self), /*C09*/ r.of(old(self), range.start.cursor, range.end.cursor)»
    {
        Drain::new(self, Some(range.start), Some(range.end))
    }
//@ end
//@ code src/lib.rs "BTree::drain_by_query" tags=C09,C06,C16
    fn drain_by_query<Q: Query<B>>(&mut self, range: Range<Q::QueryArg>) -> «(r:» Drain<B>«)
        requires old(self).inv(), old(self).g@.lv.len() <= 14,
            old(self).order().len() > 0 ==> old(self).asks::<Q>(range.start) && old(self).asks::<Q>(range.end)
                && old(self).can_drain(old(self).got::<Q>(range.start).cursor, old(self).got::<Q>(range.end).cursor)
        ensures r.ok(), *final(r.tree) == *final(self),
            old(self).order().len() == 0 ==> r.store is None && r.o@ == *old(self),
            old(self).order().len() > 0 ==> /*C09*/ r.of(old(self), old(self).got::<Q>(range.start).cursor, old(self).got::<Q>(range.end).cursor)»
    {
        let start = self.query::<Q>(&range.start);
        let end = self.query::<Q>(&range.end);
        Drain::new(self, start, end)
    }
//@ end
}
