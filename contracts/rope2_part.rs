// Deleting from the rope. (C01)
//@ rw crate::Drain::new(&mut self.tree, from, to); ==> { let mut vx_d = Drain::new(&mut self.tree, from, to); vx_d.drop(); }
//@ rw core::ops::Bound::Included(&x) => x + 1 ==> core::ops::Bound::Included(x) => *x + 1
//@ rw core::ops::Bound::Excluded(&x) => x, ==> core::ops::Bound::Excluded(x) => *x,
//@ rw q.0.map(|q| $$body) ==> (match q.0 { Some(q) => Some($$body), None => None })
// what is left of c without its part from a to b
spec fn cutout<U>(c: Seq<U>, a: int, b: int) -> Seq<U> { c.subrange(0, a) + c.subrange(b, c.len() as int) }
spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
impl<B: BTreeTrait> BTree<B> {
    // l lost the part of its content from a to b
    proof fn lm_cut_leaf(&self, t: &Self, l: RawArenaIndex, a: int, b: int, z: Seq<<B::Elem as HasLength>::Unit>)
        requires self.ts().lnk(self.g@), self.leaf_nodes@.contains_key(l), t.replaced(self, l, z), self.beg(l) <= a <= b <= self.beg(l) + self.el(l).len(),
            z == cutout(self.el(l), a - self.beg(l), b - self.beg(l))
        ensures t.all() == cutout(self.all(), a, b)
    {
        reveal(BTree::replaced);
        self.lm_around(l);
        let i = (self.g@.lpos)(l);
        let (fa, fb) = (flat(self.items().subrange(0, i)), flat(self.items().subrange(i + 1, self.order().len() as int)));
        assert(self.all() == fa + self.el(l) + fb);
        assert(t.all() =~= cutout(self.all(), a, b));
    }
    proof fn lm_new_text(&self, o: &Self, l: RawArenaIndex, z: Seq<<B::Elem as HasLength>::Unit>)
        requires self.ts().lnk(self.g@), o.ts().lnk(o.g@), o.leaf_nodes@.contains_key(l), self.leaf_nodes@.contains_key(l), self.order() == o.order(), self.ts().same_but(o.ts(), l, l, l), self.el(l) == z
        ensures self.replaced(o, l, z)
    {
        reveal(BTree::replaced);
        o.lm_at_o(); self.lm_at_o(); o.lm_around(l); self.lm_around(l);
        let i = (o.g@.lpos)(l);
        assert(self.order()[i] == l);
        self.lm_items_part(o, l, l, l, i, i + 1, 0);
    }
    // where a position is
    proof fn lm_spot(&self, target: usize)
        where B: UseLengthFinder<B>
        requires self.inv(), self.order().len() > 0, target <= self.all().len() <= TOTAL
        ensures ({
            let c = self.sought::<LengthFinder>(target);
            &&& self.ts().descent_ok(self.g@, <LengthFinder as Query<B>>::q_init(target), target, self.ts().rt())
            &&& self.valid(c) && self.off(c) == target && self.beg(c.leaf.0) + c.offset == target
            &&& self.beg(c.leaf.0) + self.el(c.leaf.0).len() <= self.all().len()
            &&& target < self.all().len() ==> c.offset < self.el(c.leaf.0).len()
        })
    {
        let n = self.order().len() as int;
        self.lm_plen_all(n); assert(self.items().subrange(0, n) =~= self.items());
        self.lm_query(target);
        let c = self.sought::<LengthFinder>(target);
        let l = c.leaf.0; let i = (self.g@.lpos)(l);
        self.ts().lm_leaf(self.g@, l);
        self.lm_plen_all(i); self.lm_plen_all(i + 1); self.lm_next_off(l); self.lm_around(l);
        self.ts().lm_plen(self.g@, i + 1, n);
    }
    proof fn lm_spot2(&self, a: usize, b: usize)
        where B: UseLengthFinder<B>
        requires self.inv(), self.order().len() > 0, a < b <= self.all().len() <= TOTAL
        ensures self.upto(self.sought::<LengthFinder>(a), self.sought::<LengthFinder>(b)),
            self.sought::<LengthFinder>(a).leaf == self.sought::<LengthFinder>(b).leaf ==> self.sought::<LengthFinder>(a).offset < self.sought::<LengthFinder>(b).offset
    {
        self.lm_spot(a); self.lm_spot(b);
        let s = self.sought::<LengthFinder>(a); let e = self.sought::<LengthFinder>(b);
        let i = self.at(s.leaf); let j = self.at(e.leaf);
        self.ts().lm_leaf(self.g@, s.leaf.0); self.ts().lm_leaf(self.g@, e.leaf.0);
        if j < i { self.lm_plen_all(i); self.lm_plen_all(j + 1); self.lm_next_off(e.leaf.0); self.ts().lm_plen(self.g@, j + 1, i); }
        if i == j { assert(s.leaf.0 == e.leaf.0); }
    }
}
proof fn lm_items_eq<B: BTreeTrait>(v: &BTree<B>, o: &BTree<B>)
    requires v.ts() == o.ts(), v.g == o.g
    ensures v.items() == o.items(), v.all() == o.all(), v.order() == o.order(), forall|l: RawArenaIndex| v.leaf_nodes@.contains_key(l) ==> v.leaf_nodes@[l] == o.leaf_nodes@[l]
{
    assert(v.ts().leaves == v.leaf_nodes@); assert(o.ts().leaves == o.leaf_nodes@);
    assert(v.items() =~= o.items());
}
impl<B: BTreeTrait> TS<B> {
    // the summary of a leaf that changed differs by d
    proof fn lm_diff(self, g: G, rc: B::Cache, l: RawArenaIndex, y: B::Elem, d: B::CacheDiff)
        requires self.lnk(g), self.leaves.contains_key(l), self.caches_ok(), self.root_cache_ok(rc), y.ok(), B::USE_DIFF, B::app(B::ec(self.leaves[l].elem), d) == B::ec(y)
        ensures ({
            let t1 = self.set_elem(l, y);
            let a = ArenaIndex::Leaf(l);
            t1.fix(g, a).pend(g, rc, t1.up(a), d)
        })
    {
        let t1 = self.set_elem(l, y);
        let a = ArenaIndex::Leaf(l);
        let p = self.leaves[l].parent;
        let j = (g.lpos)(l) - (g.fst)(p);
        self.lm_root(g); self.lm_slots(g, l); self.lm_set_elem(g, l, y);
        B::law_c0();
        self.lm_cx_any(ArenaIndex::Internal(self.rt())); self.lm_cx_one(g, ArenaIndex::Internal(self.rt()), p, j);
        assert(t1.ent(g, rc, a) == B::ec(self.leaves[l].elem));
        assert(t1.kids(t1.rt()) =~= self.kids(self.rt()));
        t1.lm_pend_up(g, rc, a, d);
        assert(t1.setc(p, j, B::ec(y)) == t1.fix(g, a));
    }
}
impl Rope {
//@ code src/generic_impl/rope.rs "Rope::delete_range" tags=C01,C16
//@ rw Cursor { pos $$x } ==> RCursor { pos $$x }
//@ rw if end - start == 1 { $$u_b Drain::new(&mut self.tree, from, to); vx_d.drop(); } } } ==> self.vx_del_query(start, end);
    fn delete_range<VxR: RangeBounds<usize>>(&mut self, range: VxR)«
        requires old(self).kept(), old(self).tree.g@.lv.len() <= 14,
            0 <= rb_lo(range) <= usize::MAX, 0 <= rb_hi(range, old(self).text().len() as int) <= usize::MAX
        ensures /*C01*/ final(self).kept(),
            ({
                let n = old(self).text().len() as int;
                let hi = least(rb_hi(range, n), n);
                /*C01*/ final(self).text() == cutout(old(self).text(), least(rb_lo(range), hi), hi)
            })»
    {
        «let ghost o = self.tree; let ghost g = o.g@; let ghost t0 = o.ts(); let ghost c0 = o.all(); let ghost n = c0.len() as int; let ghost s0 = *self;
        proof { s0.lm_len(); }»
        if self.is_empty() {
            «assert(cutout(c0, 0, 0) =~= c0);»
            return;
        }
        let start = match vx_start_bound(&range) {
            core::ops::Bound::Included(x) => *x,
            core::ops::Bound::Excluded(x) => *x + 1,
            core::ops::Bound::Unbounded => 0,
        };
        let end = match vx_end_bound(&range) {
            core::ops::Bound::Included(x) => *x + 1,
            core::ops::Bound::Excluded(x) => *x,
            core::ops::Bound::Unbounded => self.len(),
        };
        let end = end.min(self.len());
        let start = start.min(end);
        «proof { assert(end == least(rb_hi(range, n), n)); assert(start == least(rb_lo(range), end as int)); }»
        if start == end {
            «assert(cutout(c0, start as int, end as int) =~= c0);»
            return;
        }

        if let Some(RCursor { pos, leaf }) = self.cursor {
            if pos <= start {
                let node = self.tree.leaf_nodes.get(leaf.0).unwrap();
                «proof { t0.lm_elems_ok(leaf.0); o.lm_around(leaf.0); }»
                if end <= pos + node.elem.len() {
                    let start_offset = start - pos;
                    let end_offset = end - pos;
                    «let ghost l = leaf.0; let ghost ec = o.el(l); let ghost z = cutout(ec, start_offset as int, end_offset as int); let ghost mut vx_q = (false, arbitrary::<SplittedLeaves>());»
                    let valid = «({ let vx_r =» self
                        .tree
                        .update_leaf(leaf, |leaf«: &mut GapBuffer»| «-> (r: (bool, Option<GapBuffer>, Option<GapBuffer>))
                            requires old(leaf).ok(), old(leaf).content() == ec, start_offset <= end_offset <= ec.len()
                            ensures final(leaf).ok(), final(leaf).content() == z, r == (true, None::<GapBuffer>, None::<GapBuffer>)»
                        {
                            leaf.delete(start_offset..end_offset);
                            (true, None, None)
                        })«; proof { vx_q = vx_r; } vx_r })»
                        .0;

                    «proof {
                        let t = self.tree;
                        let r = (true, None::<GapBuffer>, None::<GapBuffer>);
                        assert(exists|y: GapBuffer| #[trigger] y.content() == z && t.pieced(&o, l, pieces(y, None, None), vx_q) && t.replaced(&o, l, flat(texts(pieces(y, None, None)))));
                        let y = choose|y: GapBuffer| #[trigger] y.content() == z && t.pieced(&o, l, pieces(y, None, None), vx_q) && t.replaced(&o, l, flat(texts(pieces(y, None, None))));
                        assert(updated::<RopeTrait>(t, o, l, y, r, vx_q)) by { reveal(updated); }
                        lm_updated(&t, &o, l, y, r, vx_q);
                        lm_pieces(y, None, None); assert(flat(texts(pieces(y, None, None))) =~= z);
                        o.lm_cut_leaf(&t, l, start as int, end as int, z);
                    }»
                    if !valid {
                        self.cursor = None;
                    }

                    return;
                }
            }
        }

        self.vx_del_query(start, end);
    }
//@ end
//@ code src/generic_impl/rope.rs "Rope::delete_range" tags=C01,C16
//@ rw Cursor { pos: start $$x } ==> RCursor { pos: start $$x }
//@ rw fn delete_range $$u_pre if end - start == 1 { $$u_b self.cursor = None; let from $$u_c vx_d.drop(); } } } } ==> fn vx_del_query(&mut self, start: usize, end: usize) { if end - start == 1 { $$u_b self.vx_del_far(start, end); }
    fn vx_del_query(&mut self, start: usize, end: usize)«
        requires old(self).kept(), old(self).tree.g@.lv.len() <= 14, start < end <= old(self).text().len()
        ensures /*C01*/ final(self).kept(), /*C01*/ final(self).text() == cutout(old(self).text(), start as int, end as int)»
    {
        «let ghost o = self.tree; let ghost g = o.g@; let ghost t0 = o.ts(); let ghost c0 = o.all(); let ghost n = c0.len() as int; let ghost s0 = *self;
        proof { s0.lm_len(); }»
        if end - start == 1 {
            «let ghost sc = o.sought::<LengthFinder>(start); let ghost l = sc.leaf.0; let ghost ec = o.el(l); let ghost z = cutout(ec, sc.offset as int, sc.offset + 1);
            proof { o.lm_spot(start); t0.lm_elems_ok(l); o.leaf_nodes@[l].elem.law_len(); lm_wi(ec.len() - 1); }»
            let q = self
                .tree
                .update_leaf_by_search::<LengthFinder>(&start, |leaf«: &mut GapBuffer», pos«: QueryResult»| «-> (r: Option<(isize, Option<GapBuffer>, Option<GapBuffer>)>)
                    requires old(leaf).ok(), old(leaf).content() == ec, pos.cursor == sc, sc.offset < ec.len() <= TOTAL
                    ensures final(leaf).ok(), final(leaf).content() == z, r == Some((-1isize, None::<GapBuffer>, None::<GapBuffer>))»
                {
                    leaf.delete(pos.cursor.offset..pos.cursor.offset + 1);
                    Some((-1, None, None))
                });
            «proof {
                let t = self.tree; let r = Some((-1isize, None::<GapBuffer>, None::<GapBuffer>)); let qq = (q.0 is Some, q.1);
                assert(exists|y: GapBuffer| #[trigger] y.content() == z && t.pieced(&o, l, left_d::<RopeTrait>(y, r), qq) && t.replaced(&o, l, flat(texts(left_d::<RopeTrait>(y, r)))));
                let y = choose|y: GapBuffer| #[trigger] y.content() == z && t.pieced(&o, l, left_d::<RopeTrait>(y, r), qq) && t.replaced(&o, l, flat(texts(left_d::<RopeTrait>(y, r))));
                let u = (true, None::<GapBuffer>, None::<GapBuffer>);
                assert(left_d::<RopeTrait>(y, r) =~= pieces(y, None, None));
                assert(updated::<RopeTrait>(t, o, l, y, u, qq)) by { reveal(updated); }
                lm_updated(&t, &o, l, y, u, qq);
                lm_pieces(y, None, None); assert(flat(texts(pieces(y, None, None))) =~= z);
                o.lm_cut_leaf(&t, l, start as int, end as int, z);
            }»
            self.cursor = (match q.0 {
                Some(q) => Some(RCursor {
                    pos: start - q.offset,
                    leaf: q.leaf,
                }),
                None => None
            });

            return;
        }

        self.vx_del_far(start, end);
    }
//@ end
//@ code src/generic_impl/rope.rs "Rope::delete_range" tags=C01,C16
//@ rw fn delete_range $$u_pre if end - start == 1 { $$u_b self.cursor = None; let from $$u_c vx_d.drop(); } } } } ==> fn vx_del_far(&mut self, start: usize, end: usize) { self.cursor = None; let from $$u_c vx_d.drop(); } } } }
    fn vx_del_far(&mut self, start: usize, end: usize)«
        requires old(self).kept(), old(self).tree.g@.lv.len() <= 14, start < end <= old(self).text().len()
        ensures /*C01*/ final(self).kept(), /*C01*/ final(self).text() == cutout(old(self).text(), start as int, end as int)»
    {
        «let ghost o = self.tree; let ghost g = o.g@; let ghost t0 = o.ts(); let ghost c0 = o.all(); let ghost n = c0.len() as int; let ghost s0 = *self;
        proof { s0.lm_len(); }»
        self.cursor = None;
        «let ghost s = o.sought::<LengthFinder>(start); let ghost e = o.sought::<LengthFinder>(end);
        proof { o.lm_spot(start); o.lm_spot(end); o.lm_spot2(start, end); }»
        let from = self.tree.query::<LengthFinder>(&start);
        let to = self.tree.query::<LengthFinder>(&end);
        match (from, to) {
            (Some(from), Some(to)) if from.cursor.leaf == to.cursor.leaf => {
                «let ghost l = s.leaf.0; let ghost ec = o.el(l); let ghost a = ArenaIndex::Leaf(l); let ghost z = cutout(ec, s.offset as int, e.offset as int);
                proof { t0.lm_elems_ok(l); t0.lm_root(g); t0.lm_par(g, a); o.leaf_nodes@[l].elem.law_len(); o.lm_around(l); }»
                let leaf = self.tree.leaf_nodes.get_mut(from.arena()).unwrap();
                if from.cursor.offset == 0 && to.cursor.offset == leaf.elem.len() {
                    «proof { let v = self.tree; assert(v.ts().nodes =~= t0.nodes); assert(v.ts().leaves =~= t0.leaves); assert(v.ts() == t0); assert(v.inv()); lm_items_eq(&v, &o); }»
                    self.tree.remove_leaf(from.cursor);
                    «proof {
                        let t = self.tree;
                        assert(z =~= Seq::<u8>::empty());
                        assert(t.replaced(&o, l, z)) by { reveal(BTree::replaced); }
                        o.lm_cut_leaf(&t, l, start as int, end as int, z);
                    }»
                } else {
                    leaf.elem.delete(from.cursor.offset..to.cursor.offset);
                    «let ghost y = leaf.elem; let ghost t1 = t0.set_elem(l, y); let ghost d = (start - end) as isize; let ghost v = self.tree;
                    proof {
                        assert(y.content() =~= z);
                        lm_wi(z.len() as int); lm_wi(ec.len() + d);
                        t0.lm_set_elem(g, l, y); t0.lm_changed(g, o.root_cache, l, y);
                        assert(v.ts().nodes =~= t0.nodes); assert(v.ts().leaves =~= t1.leaves); assert(v.ts() == t1);
                        t0.lm_diff(g, o.root_cache, l, y, d);
                    }»
                    self.tree.recursive_update_cache(
                        from.leaf().into(),
                        true,
                        Some(start as isize - end as isize),
                    );
                    «proof {
                        let t = self.tree; let t2 = t.ts();
                        t1.lm_sim(t2, g); t1.lm_sim_same(t2);
                        t.lm_same_then(t1, t0, l, l, l);
                        t2.lm_same_leaf(t1, l);
                        assert(t.inv());
                        t.lm_new_text(&o, l, z);
                        o.lm_cut_leaf(&t, l, start as int, end as int, z);
                    }»
                }
            }
            _ => {
                { let mut vx_d = Drain::new(&mut self.tree, from, to); vx_d.drop(); }
            }
        }
    }
//@ end
}
