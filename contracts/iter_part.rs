// iter.rs: the traversal from a start path to an inclusive end path. (C11)
//@ code src/iter.rs "struct Iter" tags=
struct Iter<'a, B: BTreeTrait> {
    tree: &'a BTree<B>,
    inclusive_end: NodePath,
    path: NodePath,
    done: bool,
}
//@ end
impl<'a, B: BTreeTrait> Iter<'a, B> {
    spec fn end(&self) -> int { plc(self.tree.g@, self.inclusive_end@.last().arena) }
    spec fn here(&self) -> int { plc(self.tree.g@, self.path@.last().arena) }
    spec fn ok(&self) -> bool {
        let t = self.tree.ts();
        let g = self.tree.g@;
        &&& t.shape(g)
        &&& t.path_ok(self.inclusive_end@) && self.inclusive_end@.len() == g.lv.len()
        &&& t.path_ok(self.path@) && self.path@.len() == g.lv.len()
    }
//@ code src/iter.rs "Iter::new" tags=C11
    fn new(tree: &'a BTree<B>, start: NodePath, inclusive_end: NodePath) -> «(r:» Self«)
        ensures r.tree == tree, r.inclusive_end == inclusive_end, r.path == start, !r.done»
    {
        Self {
            tree,
            inclusive_end,
            path: start,
            done: false,
        }
    }
//@ end
//@ code src/iter.rs "Iterator for Iter::next" tags=C11,C16
//@ rw Option<Self::Item> ==> Option<(NodePath, &'a LeafNode<B::Elem>)>
//@ rw self.path.clone() ==> vx_clone(&self.path)
    fn next(&mut self) -> «(r:» Option<(NodePath, &'a LeafNode<B::Elem>)>«)
        requires old(self).ok()
        ensures final(self).ok(), final(self).tree == old(self).tree, final(self).inclusive_end == old(self).inclusive_end,
            r is None == old(self).done,
            r is None ==> *final(self) == *old(self),
            // the leaf it stands at, in order, up to the end or the last leaf
            r is Some ==> (r->0).0 == old(self).path && *(r->0).1 == old(self).tree.leaf_nodes@[old(self).tree.order()[old(self).here()]]
                && 0 <= old(self).here() < old(self).tree.order().len()
                && final(self).done == (old(self).here() == old(self).end() || old(self).here() + 1 == old(self).tree.order().len()),
            r is Some && !final(self).done ==> final(self).here() == old(self).here() + 1»
    {
        «let ghost t = self.tree.ts();
        let ghost g = self.tree.g@;
        let ghost n = g.lv.len() as int;
        proof {
            self.tree.lm_ts();
            if !self.done {
            t.lm_root(g);
            t.lm_path(g, self.path@, n - 1);
            t.lm_path(g, self.inclusive_end@, n - 1);
            lm_path_leaf(t, g, self.path@);
            lm_path_leaf(t, g, self.inclusive_end@);
            if self.here() == self.end() { lm_path_eq(t, g, self.path@, self.inclusive_end@); }
            }
        }»
        if self.done {
            return None;
        }

        if self.inclusive_end.last() == self.path.last() {
            self.done = true;
        }

        let last = *self.path.last().unwrap();
        let path = vx_clone(&self.path);
        if !self.tree.next_sibling(&mut self.path) {
            self.done = true;
        }

        let node = self.tree.leaf_nodes.get(last.arena.unwrap_leaf()).unwrap();
        Some((path, node))
    }
//@ end
}
proof fn lm_path_leaf<B: BTreeTrait>(t: TS<B>, g: G, p: Seq<Idx>)
    requires t.shape(g), t.path_ok(p), p.len() == g.lv.len()
    ensures p.last().arena is Leaf, 0 <= plc(g, p.last().arena) < g.lv[0].len(), p.last().arena == ArenaIndex::Leaf(g.lv[0][plc(g, p.last().arena)])
{
    t.lm_path(g, p, p.len() - 1);
    match p.last().arena { ArenaIndex::Leaf(l) => { t.lm_leaf(g, l); } ArenaIndex::Internal(n) => { t.lm_node(g, n); } }
}
// the last entry of a path is determined by the place it leads to
proof fn lm_path_eq<B: BTreeTrait>(t: TS<B>, g: G, p: Seq<Idx>, q: Seq<Idx>)
    requires t.shape(g), t.path_ok(p), p.len() == g.lv.len(), t.path_ok(q), q.len() == g.lv.len(), plc(g, p.last().arena) == plc(g, q.last().arena)
    ensures p.last() == q.last()
{
    let n = p.len() as int;
    t.lm_root(g);
    lm_path_leaf(t, g, p);
    lm_path_leaf(t, g, q);
    t.lm_path(g, p, n - 2);
    t.lm_path(g, q, n - 2);
    t.lm_path(g, p, n - 1);
    t.lm_path(g, q, n - 1);
    assert(t.step_ok(p, n - 2));
    assert(t.step_ok(q, n - 2));
    let a = p[n - 2].arena.ix();
    let b = q[n - 2].arena.ix();
    t.lm_child(g, a, p[n - 1].arr as int);
    t.lm_child(g, b, q[n - 1].arr as int);
    t.lm_node(g, a);
    t.lm_node(g, b);
}
