// The traversals: iter, iter_range, visit_previous_caches, iter_with_filter. (C10, C11)
//@ rw self.first_path().unwrap_or_default() ==> (match self.first_path() { Some(p) => p, None => NodePath::new() })
//@ rw path.last().copied().unwrap_or($$b) ==> (match path.last() { Some(x) => *x, None => $$b })
//@ rw for child in node.children.iter() { $$b } ==> let mut vx_i = 0usize; while vx_i < node.children.len() { let child = &node.children[vx_i]; $$b vx_i = vx_i + 1; }
//@ rw node.children.iter() ==> vx_sl(&node.children)

// slice::iter
#[verifier::external_body]
fn vx_sl<'a, T, const N: usize>(x: &'a HeaplessVec<T, N>) -> (r: VxIter<&'a T>)
    ensures r@.len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> *(#[trigger] r@[i]) == x@[i]
{ unimplemented!() }
impl<B: BTreeTrait> BTree<B> {
// A generator closure (from_fn) becomes the list of what it yields until it first says None.
//@ code src/lib.rs "BTree::iter" tags=C10,C11,C16
//@ rw impl Iterator<Item = &B::Elem> + '_ ==> VxIter<&B::Elem>
//@ rw return None; ==> break 'vx_gen;
//@ rw return Some($$x); ==> vx_v.push($$x); continue 'vx_gen;
//@ rw core::iter::from_fn(move || loop { $$b }) ==> let mut vx_v = Vec::<&B::Elem>::new(); 'vx_gen: loop { $$b } vx_iter(vx_v)
    fn iter(&self) -> «(r:» VxIter<&B::Elem>«)
        requires self.ts().shape(self.g@), self.g@.lv.len() <= 16
        ensures /*C10 C11*/ r@.len() == self.order().len() && forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.leaf_nodes@[self.order()[i]].elem»
    {
        «let ghost t = self.ts(); let ghost g = self.g@;
        proof { self.lm_ts(); t.lm_root(g); self.lm_empty(); }»
        let mut path = (match self.first_path() { Some(p) => p, None => NodePath::new() });
        «let ghost p0 = path@;
        proof { if p0.len() > 0 { t.lm_path(g, p0, p0.len() - 1); t.lm_path_cut(p0, p0.len() - 1); t.lm_path(g, p0, p0.len() - 2); assert(t.step_ok(p0, p0.len() - 2)); t.lm_node(g, p0[p0.len() - 2].arena.ix()); t.lm_child(g, p0[p0.len() - 2].arena.ix(), p0.last().arr as int); t.lm_at(g, 0, 0); } }»
        path.pop();
        let idx = (match path.last() { Some(x) => *x, None => Idx::new(self.root, 0) });
        assert!(matches!(idx.arena, ArenaIndex::Internal(_)));
        let node = self.get_internal(idx.arena);
        let mut iter = vx_sl(&node.children);
        let mut vx_v = Vec::<&B::Elem>::new();
        «let ghost mut j = 0int;
        proof { if path@.len() > 0 { let q = path@.last().arena.ix(); assert(q == p0[p0.len() - 2].arena.ix()); assert((g.fst)(q) == 0); assert(t.nodes[q].ch == node.children@); } }»
        'vx_gen: loop
        «invariant_except_break path@.len() > 0 ==> iter@.len() + j == t.n(path@.last().arena.ix()) && 0 <= j && vx_v@.len() == (g.fst)(path@.last().arena.ix()) + j
                && forall|i: int| 0 <= i < iter@.len() ==> *(#[trigger] iter@[i]) == t.nodes[path@.last().arena.ix()].ch[j + i]
            invariant t == self.ts(), g == self.g@, t.shape(g), vx_v@.len() <= g.lv[0].len(),
                path@.len() == 0 ==> g.lv[0].len() == 0 && vx_v@.len() == 0,
                path@.len() > 0 ==> t.path_ok(path@) && path@.len() == g.lv.len() - 1,
                forall|i: int| 0 <= i < vx_v@.len() ==> *(#[trigger] vx_v@[i]) == self.leaf_nodes@[g.lv[0][i]].elem
            ensures vx_v@.len() == g.lv[0].len()
            decreases g.lv[0].len() - vx_v@.len(), if iter@.len() == 0 { 1int } else { 0 }»
        {
            «let ghost q = path@.last().arena.ix();
            proof { self.lm_ts(); t.lm_root(g); if path@.len() > 0 { t.lm_path(g, path@, path@.len() - 1); t.lm_node(g, q); if j < t.n(q) { t.lm_child(g, q, j); } } }»
            if path.is_empty() {
                break 'vx_gen;
            }

            match iter.next() {
                None => {
                    if !self.next_sibling(&mut path) {
                        break 'vx_gen;
                    }

                    let idx = *path.last().unwrap();
                    «proof { j = 0; t.lm_next(g, q); t.lm_path(g, path@, path@.len() - 1); t.lm_node(g, path@.last().arena.ix()); }»
                    assert!(matches!(idx.arena, ArenaIndex::Internal(_)));
                    let node = self.get_internal(idx.arena);
                    iter = vx_sl(&node.children);
                }
                Some(elem) => {
                    let leaf = self.leaf_nodes.get(elem.arena.unwrap_leaf()).unwrap();
                    «proof { j = j + 1; }»
                    vx_v.push(&leaf.elem);
                    continue 'vx_gen;
                }
            }
        }
        vx_iter(vx_v)
    }
//@ end
    // what iter_range yields: the leaves from s to e
    spec fn sliced(&self, s: Cursor, e: Cursor, incl: bool, r: Seq<ElemSlice<B::Elem>>) -> bool {
        let (a, b) = (self.at(s.leaf), self.at(e.leaf));
        &&& r.len() == (if e.offset == 0 && !incl { b } else { b + 1 }) - a
        &&& forall|i: int| 0 <= i < r.len() ==> self.slice_of(s, e, a + i, #[trigger] r[i])
    }
    spec fn slice_of(&self, s: Cursor, e: Cursor, j: int, x: ElemSlice<B::Elem>) -> bool {
        &&& *x.elem == self.leaf_nodes@[self.order()[j]].elem
        &&& x.cursor == Cursor { leaf: LeafIndex(self.order()[j]), offset: 0 }
        &&& x.start == (if j == self.at(s.leaf) { Some(s.offset) } else { None::<usize> })
        &&& x.end == (if j == self.at(e.leaf) { Some(e.offset) } else { None::<usize> })
    }
//@ code src/lib.rs "BTree::_iter_range" tags=C11,C16
//@ rw impl Iterator<Item = ElemSlice<'_, B::Elem>> + '_ ==> VxIter<ElemSlice<'_, B::Elem>>
//@ rw iter::Iter::new ==> Iter::new
//@ rw return None; ==> continue;
//@ rw Some(ElemSlice { $$x }) ==> vx_v.push(ElemSlice { $$x });
//@ rw node_iter.filter_map(move |(path, node)| { $$b }) ==> let mut vx_v = Vec::<ElemSlice<B::Elem>>::new(); let mut node_iter = node_iter; while let Some((path, node)) = node_iter.next() { $$b } vx_iter(vx_v)
    fn _iter_range(
        &self,
        start: Cursor,
        end: Cursor,
        inclusive_end: bool,
    ) -> «(r:» VxIter<ElemSlice<'_, B::Elem>>«)
        requires self.ts().shape(self.g@), self.g@.lv.len() <= 16, self.has(start.leaf), self.has(end.leaf), self.at(start.leaf) <= self.at(end.leaf)
        ensures /*C11*/ self.sliced(start, end, inclusive_end, r@)»
    {
        «let ghost t = self.ts(); let ghost g = self.g@; let ghost a = self.at(start.leaf); let ghost b = self.at(end.leaf);
        proof { self.lm_ts(); t.lm_root(g); t.lm_leaf(g, start.leaf.0); t.lm_leaf(g, end.leaf.0); }»
        let node_iter = Iter::new(
            self,
            self.get_path(start.leaf.into()),
            self.get_path(end.leaf.into()),
        );
        let mut vx_v = Vec::<ElemSlice<B::Elem>>::new();
        let mut node_iter = node_iter;
        «let ghost mut y = 0int;»
        while let Some((path, node)) = node_iter.next()
        «invariant_except_break !node_iter.done ==> node_iter.here() == a + y && a + y <= b, node_iter.done ==> a + y == b + 1
            invariant t == self.ts(), g == self.g@, t.shape(g), a == self.at(start.leaf), b == self.at(end.leaf), self.has(start.leaf), self.has(end.leaf), 0 <= a <= b < g.lv[0].len(),
                g.lv[0][b] == end.leaf.0, g.lv[0][a] == start.leaf.0, node_iter.end() == b, node_iter.ok(), node_iter.tree == self, y >= 0, a + y <= b + 1,
                vx_v@.len() == (if a + y == b + 1 && end.offset == 0 && !inclusive_end { y - 1 } else { y }),
                forall|i: int| 0 <= i < vx_v@.len() ==> self.slice_of(start, end, a + i, #[trigger] vx_v@[i])
            ensures a + y == b + 1
            decreases b + 1 - a - y»
        {
            «proof {
                let p = path@;
                lm_path_leaf(t, g, p); self.lm_ts(); t.lm_root(g); t.lm_path(g, p, p.len() - 1);
                let l = p.last().arena.ix(); t.lm_leaf(g, l);
                assert(plc(g, p.last().arena) == a + y);
                t.lm_at(g, 0, a + y);
                if l == end.leaf.0 { } if l == start.leaf.0 { }
                y = y + 1;
            }»
            let leaf = LeafIndex(path.last().unwrap().arena.unwrap_leaf());
            if end.leaf == leaf && end.offset == 0 && !inclusive_end {
                continue;
            }

            vx_v.push(ElemSlice {
                cursor: Cursor { leaf, offset: 0 },
                elem: &node.elem,
                start: if start.leaf == leaf {
                    Some(start.offset)
                } else {
                    None
                },
                end: if end.leaf == leaf {
                    Some(end.offset)
                } else {
                    None
                },
            });
        }
        vx_iter(vx_v)
    }
//@ end
    spec fn from_c<R: RangeBounds<Cursor>>(&self, r: R) -> Option<Cursor> {
        match RangeBoundsSpec::spec_start_bound(&r) {
            Bound::Included(x) => Some(*x),
            Bound::Excluded(x) => Some(*x),
            Bound::Unbounded => if self.order().len() > 0 { Some(Cursor { leaf: LeafIndex(self.order()[0]), offset: 0 }) } else { None::<Cursor> },
        }
    }
    spec fn to_c<R: RangeBounds<Cursor>>(&self, r: R) -> Option<Cursor> {
        match RangeBoundsSpec::spec_end_bound(&r) {
            Bound::Included(x) => Some(*x),
            Bound::Excluded(x) => Some(*x),
            Bound::Unbounded => if self.order().len() > 0 { Some(Cursor { leaf: LeafIndex(self.order().last()), offset: self.ts().elen(self.g@, self.order().len() - 1) as usize }) } else { None::<Cursor> },
        }
    }
    spec fn range_ok<R: RangeBounds<Cursor>>(&self, r: R) -> bool {
        &&& !(RangeBoundsSpec::spec_start_bound(&r) is Excluded)
        &&& self.from_c(r) is Some ==> self.has(self.from_c(r)->0.leaf)
        &&& self.to_c(r) is Some ==> self.has(self.to_c(r)->0.leaf)
        &&& self.from_c(r) is Some && self.to_c(r) is Some ==> self.at(self.from_c(r)->0.leaf) <= self.at(self.to_c(r)->0.leaf)
    }
//@ code src/lib.rs "BTree::iter_range" tags=C11,C16
//@ rw impl Iterator<Item = ElemSlice<'_, B::Elem>> + '_ ==> VxIter<ElemSlice<'_, B::Elem>>
//@ rw fn iter_range(&self, range: impl RangeBounds<Cursor>,) ==> fn iter_range<VxR: RangeBounds<Cursor>>(&self, range: VxR)
//@ rw unreachable!() ==> panic!()
//@ rw $p_a.zip($p_b).into_iter().flat_map(move |(start, end)| $$b) ==> match ($p_a, $p_b) { (Some(start), Some(end)) => $$b, _ => vx_iter(Vec::<ElemSlice<B::Elem>>::new()) }
    fn iter_range<VxR: RangeBounds<Cursor>>(
        &self,
        range: VxR
    ) -> «(r:» VxIter<ElemSlice<'_, B::Elem>>«)
        requires self.ts().shape(self.g@), self.ts().elems_ok(), self.g@.lv.len() <= 16, self.range_ok(range)
        ensures /*C11*/ match (self.from_c(range), self.to_c(range)) {
            (Some(s), Some(e)) => self.sliced(s, e, !(RangeBoundsSpec::spec_end_bound(&range) is Excluded), r@),
            _ => r@.len() == 0,
        }»
    {
        «proof { self.lm_ts(); if self.order().len() > 0 { self.ts().lm_root(self.g@); self.ts().lm_at(self.g@, 0, 0); self.ts().lm_at(self.g@, 0, self.order().len() - 1); } }»
        let start = match vx_start_bound(&range) {
            std::ops::Bound::Included(start) => Some(*start),
            std::ops::Bound::Excluded(_) => panic!(),
            std::ops::Bound::Unbounded => self.start_cursor(),
        };
        let (inclusive, end) = match vx_end_bound(&range) {
            std::ops::Bound::Included(end) => (true, Some(*end)),
            std::ops::Bound::Excluded(end) => (false, Some(*end)),
            std::ops::Bound::Unbounded => (true, self.end_cursor()),
        };
        match (start, end) {
            (Some(start), Some(end)) => self._iter_range(start, end, inclusive),
            _ => vx_iter(Vec::<ElemSlice<B::Elem>>::new())
        }
    }
//@ end
}
//@ code src/lib.rs "struct ElemSlice" tags=
struct ElemSlice<'a, Elem> {
    cursor: Cursor,
    elem: &'a Elem,
    start: Option<usize>,
    end: Option<usize>,
}
//@ end
//@ code src/lib.rs "enum PreviousCache" tags=
enum PreviousCache<'a, B: BTreeTrait> {
    NodeCache(&'a B::Cache),
    PrevSiblingElem(&'a B::Elem),
    ThisElemAndOffset { elem: &'a B::Elem, offset: usize },
}
//@ end
impl<B: BTreeTrait> TS<B> {
    // the subtrees of v (height, place) stand side by side from the first leaf on
    spec fn tile(self, g: G, v: Seq<(int, int)>, i: int) -> bool {
        let (h, p) = v[i];
        &&& 0 <= h < g.lv.len() && 0 <= p < g.lv[h].len()
        &&& self.start(g, h, p) == self.covered(g, v.take(i))
    }
    spec fn covered(self, g: G, v: Seq<(int, int)>) -> int {
        if v.len() == 0 { 0 } else { self.start(g, v.last().0, v.last().1 + 1) }
    }
    spec fn tiled(self, g: G, v: Seq<(int, int)>) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] self.tile(g, v, i) }
    proof fn lm_tile(self, g: G, v: Seq<(int, int)>, h: int, p: int)
        requires self.tiled(g, v), 0 <= h < g.lv.len(), 0 <= p < g.lv[h].len(), self.start(g, h, p) == self.covered(g, v)
        ensures self.tiled(g, v.push((h, p))), self.covered(g, v.push((h, p))) == self.start(g, h, p + 1)
    {
        let w = v.push((h, p));
        assert forall|i: int| 0 <= i < w.len() implies #[trigger] self.tile(g, w, i) by {
            if i < v.len() { assert(self.tile(g, v, i)); assert(w.take(i) =~= v.take(i)); } else { assert(w.take(i) =~= v); }
        }
    }
}
impl<B: BTreeTrait> BTree<B> {
    // what was visited: true summaries of the subtrees v, which are all that is before the leaf, then the element
    spec fn visited(&self, c: Cursor, r: Seq<PreviousCache<B>>, v: Seq<(int, int)>) -> bool {
        &&& r.len() == v.len() + 1 && self.ts().tiled(self.g@, v) && self.ts().covered(self.g@, v) == self.at(c.leaf)
        &&& forall|i: int| 0 <= i < v.len() ==> self.told((#[trigger] r[i]), v[i])
        &&& r.last() is ThisElemAndOffset && *(r.last()->elem) == self.leaf_nodes@[c.leaf.0].elem && r.last()->offset == c.offset
    }
    spec fn told(&self, x: PreviousCache<B>, y: (int, int)) -> bool { x is NodeCache && *(x->NodeCache_0) == self.ts().kc(aix(self.g@, y.0, y.1)) }
// The calls of the callback become the list of their arguments.
//@ code src/lib.rs "BTree::visit_previous_caches" tags=C11,C16
//@ rw fn visit_previous_caches<F>($$a, mut f: F) where F: FnMut(PreviousCache<'_, B>), { $$b } ==> fn visit_previous_caches($$a) -> Vec<PreviousCache<'_, B>> { let mut vx_v = Vec::<PreviousCache<B>>::new(); $$b vx_v }
//@ rw f(PreviousCache $$x); ==> vx_v.push(PreviousCache $$x);
//@ rw path.get($$i).map(|x| $$b).unwrap() ==> (*path.get($$i).unwrap()).arr
    fn visit_previous_caches(&self, cursor: Cursor) -> «(r:» Vec<PreviousCache<'_, B>>«)
        requires self.ts().shape(self.g@), self.ts().caches_ok(), self.g@.lv.len() <= 16, self.has(cursor.leaf)
        ensures /*C11*/ exists|v: Seq<(int, int)>| self.visited(cursor, r@, v)»
    {
        let mut vx_v = Vec::<PreviousCache<B>>::new();
        «let ghost t = self.ts(); let ghost g = self.g@; let ghost mut v = Seq::<(int, int)>::empty(); let ghost n = g.lv.len() as int;
        proof { self.lm_ts(); t.lm_root(g); t.lm_leaf(g, cursor.leaf.0); }»
        let path = self.get_path(cursor.leaf.into());
        «let ghost p = path@; proof { assert(t.step_ok(p, 0)); lm_start0(t, g, n - 2); }»
        let mut path_index = 0;
        let mut child_index = 0;
        let mut node = self.get_internal(path[path_index].arena);
        'outer: loop
        «invariant_except_break 0 <= path_index < n - 1, *node == self.in_nodes@[p[path_index as int].arena.ix()], child_index <= p[path_index + 1].arr,
                t.covered(g, v) == t.start(g, n - 2 - path_index, (g.fst)(p[path_index as int].arena.ix()) + child_index)
            invariant t == self.ts(), g == self.g@, t.shape(g), t.caches_ok(), p == path@, n == g.lv.len(), t.path_ok(p), p.len() == n, 2 <= n <= 16, p.last().arena == ArenaIndex::Leaf(cursor.leaf.0),
                vx_v@.len() == v.len(), t.tiled(g, v), forall|i: int| 0 <= i < v.len() ==> self.told((#[trigger] vx_v@[i]), v[i]),
            ensures t.covered(g, v) == self.at(cursor.leaf)
            decreases n - path_index, 256 - child_index»
        {
            if path_index + 1 >= path.len() {
                break;
            }

            «let ghost pi0 = path_index; let ghost ci0 = child_index;»
            while child_index == (*path.get(path_index + 1).unwrap()).arr
            «invariant path_index >= pi0, path_index == pi0 ==> child_index == ci0, t == self.ts(), g == self.g@, t.shape(g), t.caches_ok(), p == path@, n == g.lv.len(), t.path_ok(p), p.len() == n, 2 <= n <= 16, p.last().arena == ArenaIndex::Leaf(cursor.leaf.0),
                vx_v@.len() == v.len(), t.tiled(g, v), forall|i: int| 0 <= i < v.len() ==> self.told((#[trigger] vx_v@[i]), v[i]),
                0 <= path_index < n - 1, *node == self.in_nodes@[p[path_index as int].arena.ix()], child_index <= p[path_index + 1].arr,
                t.covered(g, v) == t.start(g, n - 2 - path_index, (g.fst)(p[path_index as int].arena.ix()) + child_index)
            decreases n - path_index»
            {
                «proof {
                    let q = p[path_index as int].arena.ix();
                    self.lm_ts(); t.lm_root(g);
                    t.lm_path(g, p, path_index as int); t.lm_path(g, p, path_index + 1); assert(t.step_ok(p, path_index as int));
                    if path_index + 2 < n { assert(t.step_ok(p, path_index + 1)); let q1 = p[path_index + 1].arena.ix(); t.lm_node(g, q1); t.lm_end(g, (g.ht)(q1), (g.pos)(q1)); }
                }»
                path_index += 1;
                if path_index + 1 < path.len() {
                    node = self.get_internal(path[path_index].arena);
                    child_index = 0;
                } else {
                    break 'outer;
                }
            }

            «let ghost q = p[path_index as int].arena.ix();
            proof {
                self.lm_ts(); t.lm_root(g);
                t.lm_path(g, p, path_index as int); assert(t.step_ok(p, path_index as int));
                t.lm_node(g, q); t.lm_child(g, q, child_index as int); t.lm_cache(q, child_index as int);
                let (h, x) = (n - 2 - path_index, (g.fst)(q) + child_index);
                t.lm_tile(g, v, h, x); v = v.push((h, x));
            }»
            vx_v.push(PreviousCache::NodeCache(
                &node.children[child_index as usize].cache,
            ));
            child_index += 1;
        }

        let node = self.leaf_nodes.get(cursor.leaf.0).unwrap();
        vx_v.push(PreviousCache::ThisElemAndOffset {
            elem: &node.elem,
            offset: cursor.offset,
        });
        «assert(self.visited(cursor, vx_v@, v));»
        vx_v
    }
//@ end
}
// lengths: what was visited adds up to the units before the leaf
proof fn lm_visited_len<B: BTreeTrait + UseLengthFinder<B>>(t: TS<B>, g: G, v: Seq<(int, int)>)
    requires t.shape(g), t.elems_ok(), t.caches_ok(), t.plen(g, g.lv[0].len() as int) <= TOTAL, t.tiled(g, v), g.lv[0].len() > 0
    ensures /*C11*/ isum(v.map_values(|x: (int, int)| gl::<B>(t.kc(aix(g, x.0, x.1))))) == t.plen(g, t.covered(g, v))
    decreases v.len()
{
    let s = v.map_values(|x: (int, int)| gl::<B>(t.kc(aix(g, x.0, x.1))));
    if v.len() > 0 {
        let w = v.drop_last(); let (h, p) = v.last();
        assert forall|i: int| 0 <= i < w.len() implies #[trigger] t.tile(g, w, i) by { assert(t.tile(g, v, i)); assert(w.take(i) =~= v.take(i)); }
        assert(t.tile(g, v, v.len() - 1)); assert(v.take(v.len() - 1) =~= w);
        lm_visited_len(t, g, w);
        assert(s.drop_last() =~= w.map_values(|x: (int, int)| gl::<B>(t.kc(aix(g, x.0, x.1)))));
        t.lm_at(g, h, p);
        if h > 0 { t.lm_node(g, g.lv[h][p]); t.lm_root(g); lm_span(t, g, h, p); } else { lm_span(t, g, h, p); }
    }
}
// a filter: its answer is a function of the summary
trait VxAcc: Copy {
    spec fn a0() -> Self;
    spec fn plus(a: Self, b: Self) -> Self;
    fn default() -> (r: Self)
        ensures r == Self::a0();
    fn add_assign(&mut self, x: Self)
        ensures *final(self) == Self::plus(*old(self), x);
}
spec fn vf<C, R, F: Fn(&C) -> (bool, R)>(f: F, c: C) -> (bool, R) { choose|r: (bool, R)| call_ensures(f, (&c,), r) }
spec fn vf_ok<C, R, F: Fn(&C) -> (bool, R)>(f: F) -> bool {
    &&& forall|c: &C| #[trigger] call_requires(f, (c,))
    &&& forall|c: &C, r: (bool, R), q: (bool, R)| #[trigger] call_ensures(f, (c,), r) && #[trigger] call_ensures(f, (c,), q) ==> r == q
}
spec fn fa<C, R: VxAcc, F: Fn(&C) -> (bool, R)>(f: F, r0: R, c: Seq<C>, k: int) -> R
    decreases k
{ if k <= 0 { r0 } else { R::plus(fa(f, r0, c, k - 1), vf(f, c[k - 1]).1) } }
impl<B: BTreeTrait> TS<B> {
    // whether the i-th node of height h is reached, and with what
    spec fn fw<R: VxAcc, F: Fn(&B::Cache) -> (bool, R)>(self, g: G, f: F, h: int, i: int) -> Option<R>
        decreases g.lv.len() - h
    {
        if h >= g.lv.len() - 1 { Some(R::a0()) } else {
            let p = self.par(aix(g, h, i)); let k = i - (g.fst)(p);
            match self.fw::<R, F>(g, f, h + 1, (g.pos)(p)) {
                None => None,
                Some(r0) => if vf::<B::Cache, R, F>(f, self.kids(p)[k]).0 { Some(fa::<B::Cache, R, F>(f, r0, self.kids(p), k)) } else { None },
            }
        }
    }
    spec fn surv<R: VxAcc, F: Fn(&B::Cache) -> (bool, R)>(self, g: G, f: F, h: int, a: int, b: int) -> Seq<(ArenaIndex, R)>
        decreases b - a
    {
        if b <= a { Seq::empty() } else {
            let s = self.surv::<R, F>(g, f, h, a, b - 1);
            match self.fw::<R, F>(g, f, h, b - 1) { Some(r) => s.push((aix(g, h, b - 1), r)), None => s }
        }
    }
    proof fn lm_surv<R: VxAcc, F: Fn(&B::Cache) -> (bool, R)>(self, g: G, f: F, h: int, a: int, b: int)
        requires a < b
        ensures self.surv::<R, F>(g, f, h, a, b) == (match self.fw::<R, F>(g, f, h, a) { Some(r) => seq![(aix(g, h, a), r)], None => Seq::empty() }) + self.surv::<R, F>(g, f, h, a + 1, b)
        decreases b - a
    {
        let x = (match self.fw::<R, F>(g, f, h, a) { Some(r) => seq![(aix(g, h, a), r)], None => Seq::empty() });
        if a + 1 < b { self.lm_surv::<R, F>(g, f, h, a, b - 1);
            match self.fw::<R, F>(g, f, h, b - 1) { Some(r) => { assert((x + self.surv::<R, F>(g, f, h, a + 1, b - 1)).push((aix(g, h, b - 1), r)) =~= x + self.surv::<R, F>(g, f, h, a + 1, b - 1).push((aix(g, h, b - 1), r))); } None => {} }
        } else {
            assert(self.surv::<R, F>(g, f, h, a, a) =~= Seq::empty()); assert(self.surv::<R, F>(g, f, h, a + 1, b) =~= Seq::empty());
            match self.fw::<R, F>(g, f, h, a) { Some(r) => { assert(Seq::<(ArenaIndex, R)>::empty().push((aix(g, h, a), r)) =~= x); assert(x + Seq::<(ArenaIndex, R)>::empty() =~= x); } None => { assert(x + Seq::<(ArenaIndex, R)>::empty() =~= x); } }
        }
    }
    // where the children of the k-th node of height h begin
    spec fn kid0(self, g: G, h: int, k: int) -> int { if h < 1 { 0 } else if k < g.lv[h].len() { (g.fst)(g.lv[h][k]) } else { g.lv[h - 1].len() as int } }
    spec fn wait<R: VxAcc, F: Fn(&B::Cache) -> (bool, R)>(self, g: G, f: F, h: int, k: int) -> Seq<(ArenaIndex, R)> {
        self.surv::<R, F>(g, f, h, k, g.lv[h].len() as int) + (if h < 1 { Seq::empty() } else { self.surv::<R, F>(g, f, h - 1, 0, self.kid0(g, h, k)) })
    }
    spec fn ready<R: VxAcc, F: Fn(&B::Cache) -> (bool, R)>(self, g: G, f: F, h: int, k: int) -> bool {
        &&& 0 <= h < g.lv.len() && 0 <= k <= g.lv[h].len()
        &&& if k == g.lv[h].len() { h == 0 } else { self.fw::<R, F>(g, f, h, k) is Some }
    }
    // nothing of a node that is not reached is reached
    proof fn lm_unreached<R: VxAcc, F: Fn(&B::Cache) -> (bool, R)>(self, g: G, f: F, h: int, k: int, j: int)
        requires self.shape(g), 1 <= h < g.lv.len(), 0 <= k < g.lv[h].len(), self.fw::<R, F>(g, f, h, k) is None, 0 <= j <= self.n(g.lv[h][k])
        ensures self.surv::<R, F>(g, f, h - 1, 0, (g.fst)(g.lv[h][k]) + j) == self.surv::<R, F>(g, f, h - 1, 0, (g.fst)(g.lv[h][k]))
        decreases j
    {
        let m = g.lv[h][k];
        self.lm_at(g, h, k); self.lm_node(g, m);
        if j > 0 {
            self.lm_unreached::<R, F>(g, f, h, k, j - 1);
            self.lm_child(g, m, j - 1);
            assert(aix(g, h - 1, (g.fst)(m) + j - 1) == self.nodes[m].ch[j - 1].arena);
            assert(self.fw::<R, F>(g, f, h - 1, (g.fst)(m) + j - 1) is None);
        }
    }
    proof fn lm_kid0(self, g: G, h: int, k: int)
        requires self.shape(g), 1 <= h < g.lv.len(), 0 <= k < g.lv[h].len()
        ensures self.kid0(g, h, k + 1) == (g.fst)(g.lv[h][k]) + self.n(g.lv[h][k]), k == 0 ==> self.kid0(g, h, k) == 0
    { self.lm_at(g, h, k); self.lm_node(g, g.lv[h][k]); }
    proof fn lm_lvl(self, g: G, h: int)
        requires self.shape(g), 1 <= h < g.lv.len()
        ensures g.lv[h].len() > 0
        decreases g.lv.len() - h
    {
        self.lm_root(g);
        if h + 1 < g.lv.len() { self.lm_lvl(g, h + 1); self.lm_at(g, h + 1, 0); self.lm_node(g, g.lv[h + 1][0]); self.lm_size(g, g.lv[h + 1][0]); }
    }
    // go on to the next node that is reached
    proof fn lm_skip<R: VxAcc, F: Fn(&B::Cache) -> (bool, R)>(self, g: G, f: F, h: int, k: int) -> (x: (int, int))
        requires self.shape(g), 0 <= h < g.lv.len(), 0 <= k <= g.lv[h].len()
        ensures self.ready::<R, F>(g, f, x.0, x.1), self.wait::<R, F>(g, f, x.0, x.1) == self.wait::<R, F>(g, f, h, k), x.0 < h || x.0 == h && x.1 >= k,
            x.0 < h || h == 0 ==> self.surv::<R, F>(g, f, 0, 0, if x.0 == 0 { x.1 } else { 0 }) == self.surv::<R, F>(g, f, 0, 0, if h == 0 { k } else { 0 }),
            self.wait::<R, F>(g, f, x.0, x.1).len() == 0 ==> x.0 == 0 && x.1 == g.lv[0].len(),
        decreases h, g.lv[h].len() - k
    {
        self.lm_root(g);
        let n = g.lv[h].len() as int;
        if k == n {
            if h == 0 { return (h, k); }
            if h >= 2 { self.lm_lvl(g, h - 1); self.lm_kid0(g, h - 1, 0); }
            assert(self.surv::<R, F>(g, f, h, k, n) =~= Seq::empty());
            assert(self.wait::<R, F>(g, f, h, k) =~= self.surv::<R, F>(g, f, h - 1, 0, g.lv[h - 1].len() as int));
            assert(self.wait::<R, F>(g, f, h - 1, 0) =~= self.surv::<R, F>(g, f, h - 1, 0, g.lv[h - 1].len() as int));
            return self.lm_skip::<R, F>(g, f, h - 1, 0);
        }
        self.lm_surv::<R, F>(g, f, h, k, n);
        if self.fw::<R, F>(g, f, h, k) is Some { return (h, k); }
        assert(self.surv::<R, F>(g, f, h, k, n) =~= self.surv::<R, F>(g, f, h, k + 1, n));
        if h >= 1 { self.lm_kid0(g, h, k); self.lm_unreached::<R, F>(g, f, h, k, self.n(g.lv[h][k])); }
        self.lm_skip::<R, F>(g, f, h, k + 1)
    }
}
impl<B: BTreeTrait> BTree<B> {
//@ code src/lib.rs "BTree::iter_with_filter" tags=C11,C16
//@ rw fn iter_with_filter<'a, R: Default + Copy + AddAssign + 'a>(&'a self, mut f: impl FnMut(&B::Cache) -> (bool, R) + 'a,) -> impl Iterator<Item = (R, &'_ B::Elem)> + '_ ==> fn iter_with_filter<'a, R: VxAcc, VxF: Fn(&B::Cache) -> (bool, R)>(&'a self, f: VxF) -> VxIter<(R, &'a B::Elem)>
//@ rw VecDeque::new() ==> VecDeque::<(ArenaIndex, R)>::new()
//@ rw r += new_r; ==> r.add_assign(new_r);
//@ rw return Some(($$x)); ==> vx_v.push(($$x)); continue;
//@ rw std::iter::from_fn(move || { while let Some((node_idx, mut r)) = queue.pop_front() { $$b } None }) ==> let mut vx_v = Vec::<(R, &'a B::Elem)>::new(); while let Some((node_idx, mut r)) = queue.pop_front() { $$b } vx_iter(vx_v)
    fn iter_with_filter<'a, R: VxAcc, VxF: Fn(&B::Cache) -> (bool, R)>(
        &'a self,
        f: VxF
    ) -> «(ret:» VxIter<(R, &'a B::Elem)>«)
        requires self.ts().shape(self.g@), vf_ok::<B::Cache, R, VxF>(f)
        ensures ({
            let s = self.ts().surv::<R, VxF>(self.g@, f, 0, 0, self.order().len() as int);
            /*C11*/ ret@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] ret@[i]).0 == s[i].1 && *ret@[i].1 == self.leaf_nodes@[s[i].0.ix()].elem
        })»
    {
        let mut queue = VecDeque::<(ArenaIndex, R)>::new();
        queue.push_back((self.root, R::default()));
        let mut vx_v = Vec::<(R, &'a B::Elem)>::new();
        «let ghost t = self.ts(); let ghost g = self.g@; let ghost mut h = g.lv.len() - 1; let ghost mut k = 0int; let ghost mut done = Seq::<(ArenaIndex, R)>::empty();
        proof {
            self.lm_ts(); t.lm_root(g); t.lm_kid0(g, h, 0);
            t.lm_surv::<R, VxF>(g, f, h, 0, 1);
            assert(queue@ =~= t.wait::<R, VxF>(g, f, h, 0));
        }»
        while let Some((node_idx, mut r)) = queue.pop_front()
        «invariant_except_break true
            invariant t == self.ts(), g == self.g@, t.shape(g), vf_ok::<B::Cache, R, VxF>(f), t.ready::<R, VxF>(g, f, h, k), queue@ == t.wait::<R, VxF>(g, f, h, k),
                done == t.surv::<R, VxF>(g, f, 0, 0, if h == 0 { k } else { 0 }),
                vx_v@.len() == done.len(), forall|i: int| 0 <= i < done.len() ==> (#[trigger] vx_v@[i]).0 == done[i].1 && *vx_v@[i].1 == self.leaf_nodes@[done[i].0.ix()].elem,
                queue@.len() == 0 ==> h == 0 && k == g.lv[0].len()
            ensures h == 0 && k == g.lv[0].len()
            decreases h, g.lv[h].len() - k»
        {
            «let ghost h0 = h; let ghost k0 = k; let ghost a = aix(g, h, k); let ghost rest = t.surv::<R, VxF>(g, f, h, k + 1, g.lv[h].len() as int); let ghost r0 = r;
            proof {
                self.lm_ts(); t.lm_root(g); t.lm_at(g, h, k); t.lm_surv::<R, VxF>(g, f, h, k, g.lv[h].len() as int);
                assert(node_idx == a && Some(r) == t.fw::<R, VxF>(g, f, h, k));
                if h >= 1 { t.lm_node(g, a.ix()); t.lm_kid0(g, h, k); assert(queue@ =~= rest + t.surv::<R, VxF>(g, f, h - 1, 0, (g.fst)(a.ix()))); } else { assert(queue@ =~= rest); }
            }»
            match node_idx {
                ArenaIndex::Leaf(leaf) => {
                    let node = self.leaf_nodes.get(leaf).unwrap();
                    «proof {
                        done = done.push((a, r)); k = k + 1;
                        assert(queue@ =~= t.wait::<R, VxF>(g, f, h, k));
                        let x = t.lm_skip::<R, VxF>(g, f, h, k); k = x.1;
                    }»
                    vx_v.push((r, &node.elem));
                    continue;
                }
                ArenaIndex::Internal(idx) => {
                    let node = self.in_nodes.get(idx).unwrap();
                    «proof { assert(ns(*node) == t.nodes[idx]); }»
                    let mut vx_i = 0usize;
                    while vx_i < node.children.len()
                    «invariant t == self.ts(), g == self.g@, t.shape(g), vf_ok::<B::Cache, R, VxF>(f), 1 <= h < g.lv.len(), 0 <= k < g.lv[h].len(), g.lv[h][k] == idx, t.nodes.contains_key(idx), (g.ht)(idx) == h, (g.pos)(idx) == k,
                            node.children@ == t.nodes[idx].ch, Some(r0) == t.fw::<R, VxF>(g, f, h, k), 0 <= vx_i <= node.children@.len(),
                            r == fa::<B::Cache, R, VxF>(f, r0, t.kids(idx), vx_i as int),
                            queue@ == rest + t.surv::<R, VxF>(g, f, h - 1, 0, (g.fst)(idx) + vx_i)
                        decreases node.children@.len() - vx_i»
                    {
                        let child = &node.children[vx_i];
                        let (drill, new_r) = f(&child.cache);
                        «proof {
                            t.lm_child(g, idx, vx_i as int); t.lm_node(g, idx);
                            assert(t.kids(idx)[vx_i as int] == child.cache);
                            assert((drill, new_r) == vf::<B::Cache, R, VxF>(f, child.cache));
                            assert(aix(g, h - 1, (g.fst)(idx) + vx_i) == child.arena);
                            let s = t.surv::<R, VxF>(g, f, h - 1, 0, (g.fst)(idx) + vx_i);
                            assert((rest + s).push((child.arena, r)) =~= rest + s.push((child.arena, r)));
                        }»
                        if drill {
                            queue.push_back((child.arena, r));
                        }
                        r.add_assign(new_r);
                        vx_i = vx_i + 1;
                    }
                    «proof {
                        k = k + 1;
                        assert(queue@ =~= t.wait::<R, VxF>(g, f, h, k));
                        let x = t.lm_skip::<R, VxF>(g, f, h, k); h = x.0; k = x.1;
                    }»
                }
            }
        }
        vx_iter(vx_v)
    }
//@ end
}
