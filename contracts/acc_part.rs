// Access to nodes and leaves.
//@ rw $p_x.iter().position($c).unwrap() ==> vx_position(&$p_x, $c)
//@ rw where B::Elem: rle::HasLength, { ==> {
spec fn vx_yes<T, F: Fn(&T) -> bool>(f: F, x: &T) -> bool { forall|b: bool| call_ensures(f, (x,), b) ==> b }
// Iterator::position(..).unwrap() on a slice
fn vx_position<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: usize)
    requires
        forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
        exists|i: int| 0 <= i < s@.len() && vx_yes(f, &#[trigger] s@[i]),
    ensures
        r < s@.len(), call_ensures(f, (&s@[r as int],), true),
        forall|i: int| 0 <= i < r ==> call_ensures(f, (&#[trigger] s@[i],), false),
{
    let mut i = 0;
    while i < s.len()
        invariant
            i <= s@.len(),
            forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
            exists|i: int| 0 <= i < s@.len() && vx_yes(f, &#[trigger] s@[i]),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] s@[j],), false),
        decreases s@.len() - i
    {
        if f(&s[i]) { return i; }
        i += 1;
    }
    proof { assert(false); }
    i
}
impl<T> LeafNode<T> {
//@ code src/lib.rs "LeafNode::parent" tags=
    fn parent(&self) -> «(r:» ArenaIndex«)
        ensures r == ArenaIndex::Internal(self.parent)»
    {
        ArenaIndex::Internal(self.parent)
    }
//@ end
//@ code src/lib.rs "LeafNode::elem" tags=
    fn elem(&self) -> «(r:» &T«)
        ensures *r == self.elem»
    {
        &self.elem
    }
//@ end
}
impl<B: BTreeTrait> Child<B> {
//@ code src/lib.rs "Child::is_internal" tags=
    fn is_internal(&self) -> «(r:» bool«)
        ensures r == (self.arena is Internal)»
    {
        matches!(self.arena, ArenaIndex::Internal(_))
    }
//@ end
//@ code src/lib.rs "Child::is_leaf" tags=
    fn is_leaf(&self) -> «(r:» bool«)
        ensures r == (self.arena is Leaf)»
    {
        matches!(self.arena, ArenaIndex::Leaf(_))
    }
//@ end
//@ code src/lib.rs "Child::new" tags=
    fn new(arena: ArenaIndex, cache: B::Cache) -> «(r:» Self«)
        ensures r == (Child { arena, cache })»
    {
        Self { arena, cache }
    }
//@ end
}
impl<B: BTreeTrait> Node<B> {
//@ code src/lib.rs "Node::new" tags=
    fn new() -> «(r:» Self«)
        ensures ns(r) == (NodeS { par: None, slot: 255, ch: Seq::<Child<B>>::empty() })»
    {
        Self {
            parent: None,
            parent_slot: u8::MAX,
            children: HeaplessVec::new(),
        }
    }
//@ end
//@ code src/lib.rs "Node::is_full" tags=
    fn is_full(&self) -> «(r:» bool«)
        ensures r == (self.children@.len() >= MAX_CHILDREN_NUM)»
    {
        self.children.len() >= MAX_CHILDREN_NUM
    }
//@ end
//@ code src/lib.rs "Node::is_lack" tags=C02
    fn is_lack(&self) -> «(r:» bool«)
        ensures /*C02*/ !r ==> self.children@.len() >= 2»
    {
        self.children.len() < MAX_CHILDREN_NUM / 2
    }
//@ end
//@ code src/lib.rs "Node::len" tags=
    fn len(&self) -> «(r:» usize«)
        ensures r == self.children@.len()»
    {
        self.children.len()
    }
//@ end
//@ code src/lib.rs "Node::is_empty" tags=
    fn is_empty(&self) -> «(r:» bool«)
        ensures r == (self.children@.len() == 0)»
    {
        self.len() == 0
    }
//@ end
//@ code src/lib.rs "Node::is_child_leaf" tags=
    fn is_child_leaf(&self) -> «(r:» bool«)
        ensures r == (self.children@.len() == 0 || self.children@[0].arena is Leaf)»
    {
        if self.children.is_empty() {
            return true;
        }
        self.children[0].is_leaf()
    }
//@ end
}
impl<B: BTreeTrait> BTree<B> {
//@ code src/lib.rs "BTree::get_internal_mut" tags=C16
    fn get_internal_mut(&mut self, index: ArenaIndex) -> «(r:» &mut Node<B>«)
        requires index is Internal, old(self).in_nodes@.contains_key(index.ix())
        ensures *r == old(self).in_nodes@[index.ix()],
            final(self).in_nodes@ == old(self).in_nodes@.insert(index.ix(), *final(r)),
            final(self).in_nodes.used() == old(self).in_nodes.used(),
            final(self).leaf_nodes == old(self).leaf_nodes, final(self).root == old(self).root,
            final(self).root_cache == old(self).root_cache, final(self).g == old(self).g»
    {
        self.in_nodes.get_mut(index.unwrap_internal()).unwrap()
    }
//@ end
//@ code src/lib.rs "BTree::get_leaf_mut" tags=C16
    fn get_leaf_mut(&mut self, index: ArenaIndex) -> «(r:» &mut LeafNode<B::Elem>«)
        requires index is Leaf, old(self).leaf_nodes@.contains_key(index.ix())
        ensures *r == old(self).leaf_nodes@[index.ix()],
            final(self).leaf_nodes@ == old(self).leaf_nodes@.insert(index.ix(), *final(r)),
            final(self).leaf_nodes.used() == old(self).leaf_nodes.used(),
            final(self).in_nodes == old(self).in_nodes, final(self).root == old(self).root,
            final(self).root_cache == old(self).root_cache, final(self).g == old(self).g»
    {
        self.leaf_nodes.get_mut(index.unwrap_leaf()).unwrap()
    }
//@ end
//@ code src/lib.rs "BTree::get2_mut" tags=C16
    fn get2_mut(&mut self, a: ArenaIndex, b: ArenaIndex) -> «(r:» (&mut Node<B>, &mut Node<B>)«)
        requires a is Internal, b is Internal, a != b, old(self).in_nodes@.contains_key(a.ix()), old(self).in_nodes@.contains_key(b.ix())
        ensures *r.0 == old(self).in_nodes@[a.ix()], *r.1 == old(self).in_nodes@[b.ix()],
            final(self).in_nodes@ == old(self).in_nodes@.insert(a.ix(), *final(r.0)).insert(b.ix(), *final(r.1)),
            final(self).in_nodes.used() == old(self).in_nodes.used(),
            final(self).leaf_nodes == old(self).leaf_nodes, final(self).root == old(self).root,
            final(self).root_cache == old(self).root_cache, final(self).g == old(self).g»
    {
        let (a, b) = self
            .in_nodes
            .get2_mut(a.unwrap_internal(), b.unwrap_internal());
        (a.unwrap(), b.unwrap())
    }
//@ end
//@ code src/lib.rs "BTree::get_internal" tags=C16
    fn get_internal(&self, index: ArenaIndex) -> «(r:» &Node<B>«)
        requires index is Internal, self.in_nodes@.contains_key(index.ix())
        ensures *r == self.in_nodes@[index.ix()]»
    {
        self.in_nodes.get(index.unwrap_internal()).unwrap()
    }
//@ end
//@ code src/lib.rs "BTree::get_leaf" tags=C16
    fn get_leaf(&self, index: ArenaIndex) -> «(r:» &LeafNode<B::Elem>«)
        requires index is Leaf, self.leaf_nodes@.contains_key(index.ix())
        ensures *r == self.leaf_nodes@[index.ix()]»
    {
        self.leaf_nodes.get(index.unwrap_leaf()).unwrap()
    }
//@ end
//@ code src/lib.rs "BTree::root_mut" tags=C16
    fn root_mut(&mut self) -> «(r:» &mut Node<B>«)
        requires old(self).root is Internal, old(self).in_nodes@.contains_key(old(self).root.ix())
        ensures *r == old(self).in_nodes@[old(self).root.ix()],
            final(self).in_nodes@ == old(self).in_nodes@.insert(old(self).root.ix(), *final(r)),
            final(self).in_nodes.used() == old(self).in_nodes.used(),
            final(self).leaf_nodes == old(self).leaf_nodes, final(self).root == old(self).root,
            final(self).root_cache == old(self).root_cache, final(self).g == old(self).g»
    {
        self.get_internal_mut(self.root)
    }
//@ end
//@ code src/lib.rs "BTree::root_cache" tags=C05
    fn root_cache(&self) -> «(r:» &B::Cache«)
        ensures *r == self.root_cache»
    {
        &self.root_cache
    }
//@ end
//@ code src/lib.rs "BTree::is_empty" tags=C10,C16
    fn is_empty(&self) -> «(r:» bool«)
        requires self.ts().shape(self.g@)
        ensures r == (self.order().len() == 0), r == (self.ts().n(self.ts().rt()) == 0)»
    {
        «proof { self.lm_ts(); self.ts().lm_root(self.g@); self.lm_empty(); }»
        self.get_internal(self.root).is_empty()
    }
//@ end
//@ code src/lib.rs "BTree::get_elem_mut" tags=C07
    fn get_elem_mut(&mut self, leaf: LeafIndex) -> «(r:» Option<&mut B::Elem>«)
        ensures final(self).in_nodes == old(self).in_nodes, final(self).root == old(self).root, final(self).root_cache == old(self).root_cache,
            final(self).g == old(self).g, final(self).leaf_nodes.used() == old(self).leaf_nodes.used(),
            match r {
                Some(e) => /*C07*/ old(self).has(leaf) && *e == old(self).leaf_nodes@[leaf.0].elem && final(self).leaf_nodes@
                    == old(self).leaf_nodes@.insert(leaf.0, LeafNode { elem: *final(e), parent: old(self).leaf_nodes@[leaf.0].parent }),
                None => !old(self).has(leaf) && final(self).leaf_nodes@ == old(self).leaf_nodes@,
            }»
    {
        let node = self.leaf_nodes.get_mut(leaf.0)?;
        Some(&mut node.elem)
    }
//@ end
//@ code src/lib.rs "BTree::get_elem" tags=C07
    fn get_elem(&self, leaf: LeafIndex) -> «(r:» Option<&<B as BTreeTrait>::Elem>«)
        ensures r is Some == self.has(leaf), r is Some ==> *r->0 == self.leaf_nodes@[leaf.0].elem»
    {
        self.leaf_nodes.get(leaf.0).map(|x«: &LeafNode<B::Elem>»| «-> (e: &B::Elem) ensures *e == x.elem {» &x.elem «}»)
    }
//@ end
}
