// What the iterators of OrdTreeMap, OrdTreeSet and Rope yield. (C01, C02)
// Iterator::map
#[verifier::external_body]
fn vx_map<T, U, F: Fn(T) -> U>(v: VxIter<T>, f: F) -> (r: VxIter<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), #[trigger] r@[i])
{ unimplemented!() }
impl<Key: VxKey, Value> OrdTreeMap<Key, Value> {
//@ code src/generic_impl/ord.rs "OrdTreeMap::iter" tags=C02,C16
//@ rw impl Iterator<Item = &(Key, Value)> ==> VxIter<&(Key, Value)>
//@ rw self.tree.iter().map(|x| $$b) ==> vx_map(self.tree.iter(), |x: &Unmergeable<(Key, Value)>| $$b)
    fn iter(&self) -> «(r:» VxIter<&(Key, Value)>«)
        requires self.good(), self.tree.g@.lv.len() <= 16
        ensures /*C02*/ r@.len() == self.binds().len() && forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.binds()[i]»
    {
        vx_map(self.tree.iter(), |x: &Unmergeable<(Key, Value)>| «-> (y: &(Key, Value)) ensures *y == x.0 {» &x.0 «}»)
    }
//@ end
//@ code src/generic_impl/ord.rs "OrdTreeMap::iter_key" tags=C02,C16
//@ rw impl Iterator<Item = &Key> ==> VxIter<&Key>
//@ rw self.tree.iter().map(|x| $$b) ==> vx_map(self.tree.iter(), |x: &Unmergeable<(Key, Value)>| $$b)
    fn iter_key(&self) -> «(r:» VxIter<&Key>«)
        requires self.good(), self.tree.g@.lv.len() <= 16
        ensures /*C02*/ r@.len() == self.binds().len() && forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.binds()[i].0»
    {
        vx_map(self.tree.iter(), |x: &Unmergeable<(Key, Value)>| «-> (y: &Key) ensures *y == x.0.0 {» &x.0 .0 «}»)
    }
//@ end
}
impl<Key: VxKey> OrdTreeSet<Key> {
//@ code src/generic_impl/ord.rs "OrdTreeSet::iter" tags=C02,C16
//@ rw impl Iterator<Item = &Key> ==> VxIter<&Key>
    fn iter(&self) -> «(r:» VxIter<&Key>«)
        requires self.0.good(), self.0.tree.g@.lv.len() <= 16
        ensures /*C02*/ r@.len() == self.0.binds().len() && forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.0.binds()[i].0»
    {
        self.0.iter_key()
    }
//@ end
}
impl Rope {
// A generator closure (from_fn) becomes the list of what it yields until it first says None.
//@ code src/generic_impl/rope.rs "Rope::iter" tags=C01,C16
//@ rw impl Iterator<Item = &GapBuffer> ==> VxIter<&GapBuffer>
//@ rw crate::iter::Iter::new ==> Iter::new
//@ rw self.tree.first_path().map(|first| $$b) ==> match self.tree.first_path() { Some(first) => Some($$b), None => None }
//@ rw std::iter::from_fn(move || $$b) ==> let mut vx_v = Vec::<&GapBuffer>::new(); loop { match { $$b } { Some(vx_x) => { vx_v.push(vx_x); } None => { break; } } } vx_iter(vx_v)
    fn iter(&self) -> «(r:» VxIter<&GapBuffer>«)
        requires self.tree.inv(), self.tree.g@.lv.len() <= 16
        ensures /*C01*/ r@.len() == self.tree.order().len() && forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.tree.leaf_nodes@[self.tree.order()[i]].elem»
    {
        let mut node_iter = match self.tree.first_path() { Some(first) => Some(Iter::new(&self.tree, first, self.tree.last_path().unwrap())), None => None };
        let mut vx_v = Vec::<&GapBuffer>::new();
        «let ghost t = self.tree.ts(); let ghost g = self.tree.g@; let ghost n = g.lv[0].len() as int;
        proof {
            t.lm_root(g);
            if n > 0 { t.lm_at(g, 0, 0); t.lm_at(g, 0, n - 1); }
        }»
        loop
        «invariant_except_break node_iter is Some && !(node_iter->0).done ==> (node_iter->0).here() == vx_v@.len(), node_iter is Some && (node_iter->0).done ==> vx_v@.len() == n
            invariant t == self.tree.ts(), g == self.tree.g@, t.shape(g), n == g.lv[0].len(), vx_v@.len() <= n,
                node_iter is None ==> n == 0, node_iter is Some ==> n > 0 && (node_iter->0).ok() && *(node_iter->0).tree == self.tree && (node_iter->0).end() == n - 1,
                forall|i: int| 0 <= i < vx_v@.len() ==> *(#[trigger] vx_v@[i]) == self.tree.leaf_nodes@[g.lv[0][i]].elem
            ensures vx_v@.len() == n
            decreases n - vx_v@.len()»
        {
            match {
                match &mut node_iter {
                    Some(node_iter) => {
                        if let Some(node) = node_iter.next() {
                            Some(&node.1.elem)
                        } else {
                            None
                        }
                    }
                    None => None,
                }
            } {
                Some(vx_x) => {
                    vx_v.push(vx_x);
                }
                None => {
                    break;
                }
            }
        }
        vx_iter(vx_v)
    }
//@ end
// Display: the bytes handed to write_str (that they are utf-8 is the caller's affair: positions are byte offsets).
//@ code src/generic_impl/rope.rs "Display for Rope::fmt" tags=C01,C16
//@ rw fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { ==> fn vx_fmt(&self) -> Vec<u8> {
//@ rw f.write_str(std::str::from_utf8(ans.as_slice()).unwrap()) ==> ans
//@ rw for elem in self.iter() { $$b } ==> let mut vx_it = self.iter(); while let Some(elem) = vx_it.next() { $$b }
    fn vx_fmt(&self) -> «(r:» Vec<u8>«)
        requires self.kept(), self.tree.g@.lv.len() <= 16
        ensures /*C01*/ r@ == self.text()»
    {
        let mut ans = Vec::with_capacity(self.len());
        let mut vx_it = self.iter();
        «let ghost all = vx_it@; let ghost t = self.tree; let ghost n = t.order().len() as int; let ghost its = t.items(); let ghost mut k = 0int;
        proof { assert(its.subrange(0, n) =~= its); assert(flat(its.subrange(0, 0)) =~= Seq::<u8>::empty()); }»
        while let Some(elem) = vx_it.next()
        «invariant t == self.tree, t.inv(), its == t.items(), n == t.order().len(), its.len() == n, all.len() == n, 0 <= k <= n, vx_it@ == all.subrange(k, n), ans@ == flat(its.subrange(0, k)),
                forall|i: int| 0 <= i < n ==> *(#[trigger] all[i]) == t.leaf_nodes@[t.order()[i]].elem
            ensures k == n
            decreases n - k»
        {
            «proof {
                t.ts().lm_root(t.g@); t.ts().lm_at(t.g@, 0, k); t.ts().lm_elems_ok(t.order()[k]);
                assert(its[k] == elem.content()); assert(its.subrange(0, k + 1).drop_last() =~= its.subrange(0, k)); assert(its.subrange(0, k + 1).last() == its[k]);
            }»
            let (left, right) = elem.as_bytes();
            ans.extend_from_slice(left);
            ans.extend_from_slice(right);
            «proof { assert(ans@ =~= flat(its.subrange(0, k)) + elem.content()); k = k + 1; }»
        }
        ans
    }
//@ end
}
