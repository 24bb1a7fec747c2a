// The content of a tree: the contents of its leaves in order.
spec fn flat<U>(s: Seq<Seq<U>>) -> Seq<U>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() } }
proof fn lm_flat_cat<U>(a: Seq<Seq<U>>, b: Seq<Seq<U>>)
    ensures flat(a + b) == flat(a) + flat(b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(flat(a + b) =~= flat(a) + flat(b));
    } else {
        lm_flat_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(flat(a + b) =~= flat(a) + flat(b));
    }
}
proof fn lm_flat1<U>(x: Seq<U>)
    ensures flat(seq![x]) == x
{
    assert(seq![x].drop_last() =~= Seq::<Seq<U>>::empty());
    assert(flat(seq![x].drop_last()) =~= Seq::<U>::empty());
    assert(flat(seq![x]) =~= x);
}
// the list m between a and b
proof fn lm_flat3<U>(a: Seq<Seq<U>>, m: Seq<Seq<U>>, b: Seq<Seq<U>>)
    ensures flat(a + m + b) == flat(a) + flat(m) + flat(b)
{ lm_flat_cat(a + m, b); lm_flat_cat(a, m); }
impl<B: BTreeTrait> BTree<B> {
    spec fn el(&self, l: RawArenaIndex) -> Seq<<B::Elem as HasLength>::Unit> { self.leaf_nodes@[l].elem.content() }
    spec fn items(&self) -> Seq<Seq<<B::Elem as HasLength>::Unit>> { Seq::new(self.order().len(), |i: int| self.el(self.order()[i])) }
    spec fn all(&self) -> Seq<<B::Elem as HasLength>::Unit> { flat(self.items()) }
    // how much content is before the cursor
    spec fn off(&self, c: Cursor) -> int { flat(self.items().subrange(0, self.at(c.leaf))).len() + c.offset }
    // what every public operation of the tree keeps: shape, sizes, lawful elements, caches
    spec fn inv(&self) -> bool {
        self.wf() && self.ts().caches_ok() && self.ts().root_cache_ok(self.root_cache)
    }
}
impl<B: BTreeTrait> TS<B> {
    // the leaves but for a, b and c hold the same elements
    #[verifier::opaque]
    spec fn same_but(self, o: TS<B>, a: RawArenaIndex, b: RawArenaIndex, c: RawArenaIndex) -> bool {
        forall|l: RawArenaIndex| l != a && l != b && l != c ==> #[trigger] self.same_leaf(o, l)
    }
    proof fn lm_same_elems(self, o: TS<B>)
        requires self.same_leaves(o), o.elems_ok()
        ensures self.elems_ok()
    {
        reveal(TS::same_leaves); reveal(TS::elems_ok);
        assert forall|l: RawArenaIndex| #[trigger] self.elem_ok(l) by { assert(self.same_leaf(o, l)); assert(o.elem_ok(l)); }
    }
    proof fn lm_same_leaf(self, o: TS<B>, l: RawArenaIndex)
        requires self.same_leaves(o)
        ensures self.same_leaf(o, l)
    { reveal(TS::same_leaves); assert(self.same_leaf(o, l)); }
    proof fn lm_same_but(self, o: TS<B>, a: RawArenaIndex, b: RawArenaIndex, c: RawArenaIndex, l: RawArenaIndex)
        requires self.same_but(o, a, b, c), l != a, l != b, l != c
        ensures self.same_leaf(o, l)
    { reveal(TS::same_but); assert(self.same_leaf(o, l)); }
}
impl<B: BTreeTrait> BTree<B> {
    // x was put where the cursor c of o points: into its leaf, into a new leaf before or after it, or between its two halves
    spec fn placed(&self, o: &Self, c: Cursor, x: Seq<<B::Elem as HasLength>::Unit>, r: Cursor, sl: Seq<LeafIndex>) -> bool {
        let l = c.leaf.0;
        let i = o.at(c.leaf);
        let k = c.offset as int;
        let e = o.el(l);
        let n = r.leaf.0;
        &&& self.has(c.leaf) && self.has(r.leaf)
        &&& {
            ||| {
                &&& r == c && sl.len() == 0 && self.order() == o.order()
                &&& self.el(l) == e.subrange(0, k) + x + e.subrange(k, e.len() as int)
                &&& self.ts().same_but(o.ts(), l, l, l)
            }
            ||| {
                &&& n != l && !o.leaf_nodes.used().contains(n) && r.offset == 0 && self.el(n) == x && sl.len() == 0 && self.el(l) == e
                &&& k == 0 && self.order() == o.order().insert(i, n) || k == e.len() && self.order() == o.order().insert(i + 1, n)
                &&& self.ts().same_but(o.ts(), n, n, n)
            }
            ||| {
                let s = sl[0].0;
                &&& sl.len() == 1 && n != l && s != l && s != n && !o.leaf_nodes.used().contains(n) && !o.leaf_nodes.used().contains(s)
                &&& 0 < k < e.len() && r.offset == 0 && self.el(n) == x && self.has(sl[0])
                &&& self.el(l) == e.subrange(0, k) && self.el(s) == e.subrange(k, e.len() as int)
                &&& self.order() == o.order().insert(i + 1, s).insert(i + 1, n)
                &&& self.ts().same_but(o.ts(), l, s, n)
            }
        }
    }
    // the leaves of o before place i are still the first ones, those from j on are the last ones
    proof fn lm_items_part(&self, o: &Self, a: RawArenaIndex, b: RawArenaIndex, c: RawArenaIndex, i: int, j: int, d: int)
        requires self.ts().same_but(o.ts(), a, b, c), o.ts().lnk(o.g@), 0 <= i <= j <= o.order().len(), o.order().len() + d == self.order().len(), j + d >= i,
            forall|q: int| 0 <= q < i ==> #[trigger] self.order()[q] == o.order()[q],
            forall|q: int| j <= q < o.order().len() ==> self.order()[q + d] == #[trigger] o.order()[q],
            forall|q: int| (0 <= q < i || j <= q < o.order().len()) ==> #[trigger] o.order()[q] != a && o.order()[q] != b && o.order()[q] != c,
        ensures self.items().subrange(0, i) == o.items().subrange(0, i),
            self.items().subrange(j + d, self.order().len() as int) == o.items().subrange(j, o.order().len() as int),
    {
        assert forall|q: int| (0 <= q < i || j <= q < o.order().len()) implies #[trigger] o.items()[q] == self.el(o.order()[q]) by {
            self.ts().lm_same_but(o.ts(), a, b, c, o.order()[q]);
            o.ts().lm_root(o.g@);
            o.ts().lm_at(o.g@, 0, q);
        }
        assert forall|q: int| 0 <= q < i implies self.items()[q] == o.items()[q] by { assert(self.order()[q] == o.order()[q]); assert(o.items()[q] == self.el(o.order()[q])); }
        assert(self.items().subrange(0, i) =~= o.items().subrange(0, i));
        assert forall|q: int| j <= q < o.order().len() implies self.items()[q + d] == o.items()[q] by { assert(self.order()[q + d] == o.order()[q]); assert(o.items()[q] == self.el(o.order()[q])); }
        assert forall|q: int| 0 <= q < o.order().len() - j implies self.items().subrange(j + d, self.order().len() as int)[q] == o.items().subrange(j, o.order().len() as int)[q] by {
            assert(self.items()[j + q + d] == o.items()[j + q]);
        }
        assert(self.items().subrange(j + d, self.order().len() as int) =~= o.items().subrange(j, o.order().len() as int));
    }
    proof fn lm_at_o(&self)
        requires self.ts().lnk(self.g@)
        ensures forall|q: int| 0 <= q < self.order().len() ==> self.leaf_nodes@.contains_key(#[trigger] self.order()[q]) && (self.g@.lpos)(self.order()[q]) == q
            && self.leaf_nodes.used().contains(self.order()[q])
    {
        self.ts().lm_root(self.g@);
        assert forall|q: int| 0 <= q < self.order().len() implies self.leaf_nodes@.contains_key(#[trigger] self.order()[q]) && (self.g@.lpos)(self.order()[q]) == q
            && self.leaf_nodes.used().contains(self.order()[q]) by { self.ts().lm_at(self.g@, 0, q); self.leaf_nodes.axiom_used(self.order()[q]); }
    }
    // the content around a leaf
    proof fn lm_around(&self, l: RawArenaIndex)
        requires self.ts().lnk(self.g@), self.leaf_nodes@.contains_key(l)
        ensures ({
            let i = (self.g@.lpos)(l);
            &&& 0 <= i < self.order().len() && self.order()[i] == l
            &&& self.items()[i] == self.el(l)
            &&& self.all() == flat(self.items().subrange(0, i)) + self.el(l) + flat(self.items().subrange(i + 1, self.order().len() as int))
        })
    {
        self.ts().lm_leaf(self.g@, l);
        let i = (self.g@.lpos)(l);
        let a = self.items().subrange(0, i);
        let b = self.items().subrange(i + 1, self.order().len() as int);
        assert(self.items() =~= a + seq![self.el(l)] + b);
        lm_flat3(a, seq![self.el(l)], b);
        lm_flat1(self.el(l));
    }
    spec fn parts(&self, o: &Self, c: Cursor, x: Seq<<B::Elem as HasLength>::Unit>, r: Cursor) -> bool {
        let i = o.at(c.leaf);
        let k = c.offset as int;
        let e = o.el(c.leaf.0);
        &&& self.all() == flat(o.items().subrange(0, i)) + e.subrange(0, k) + x + e.subrange(k, e.len() as int) + flat(o.items().subrange(i + 1, o.order().len() as int))
        &&& flat(self.items().subrange(0, self.at(r.leaf))).len() + r.offset == flat(o.items().subrange(0, i)).len() + k
        &&& r.offset + x.len() <= self.el(r.leaf.0).len() && self.el(r.leaf.0).subrange(r.offset as int, r.offset + x.len()) == x
    }
    proof fn lm_placed1(&self, o: &Self, c: Cursor, x: Seq<<B::Elem as HasLength>::Unit>)
        requires o.ts().lnk(o.g@), o.valid(c), self.ts().lnk(self.g@), self.order() == o.order(), self.has(c.leaf),
            self.el(c.leaf.0) == o.el(c.leaf.0).subrange(0, c.offset as int) + x + o.el(c.leaf.0).subrange(c.offset as int, o.el(c.leaf.0).len() as int),
            self.ts().same_but(o.ts(), c.leaf.0, c.leaf.0, c.leaf.0)
        ensures self.parts(o, c, x, c)
    {
        let l = c.leaf.0;
        let i = o.at(c.leaf);
        o.lm_at_o(); self.lm_at_o();
        o.lm_around(l);
        self.lm_around(l);
        self.lm_items_part(o, l, l, l, i, i + 1, 0);
        let k = c.offset as int;
        let e = o.el(l);
        assert(self.order()[i] == l);
        assert(self.all() =~= flat(o.items().subrange(0, i)) + e.subrange(0, k) + x + e.subrange(k, e.len() as int) + flat(o.items().subrange(i + 1, o.order().len() as int)));
        assert(self.el(l).subrange(k, k + x.len()) =~= x);
    }
    proof fn lm_placed2(&self, o: &Self, c: Cursor, x: Seq<<B::Elem as HasLength>::Unit>, n: RawArenaIndex)
        requires o.ts().lnk(o.g@), o.valid(c), self.ts().lnk(self.g@), self.leaf_nodes@.contains_key(n), !o.leaf_nodes.used().contains(n), self.el(n) == x,
            self.el(c.leaf.0) == o.el(c.leaf.0),
            c.offset == 0 && self.order() == o.order().insert(o.at(c.leaf), n) || c.offset == o.el(c.leaf.0).len() && self.order() == o.order().insert(o.at(c.leaf) + 1, n),
            self.ts().same_but(o.ts(), n, n, n)
        ensures self.parts(o, c, x, Cursor { leaf: LeafIndex(n), offset: 0 })
    {
        let l = c.leaf.0;
        let i = o.at(c.leaf);
        let k = c.offset as int;
        let e = o.el(l);
        let no = o.order().len() as int;
        let before = k == 0 && self.order() == o.order().insert(i, n);
        let j = if before { i } else { i + 1 };
        o.lm_at_o(); self.lm_at_o();
        o.lm_around(l);
        self.lm_around(n);
        assert(self.order()[j] == n);
        let a = o.items().subrange(0, i);
        let b = o.items().subrange(i + 1, no);
        assert forall|q: int| j <= q < no implies self.order()[q + 1] == #[trigger] o.order()[q] by {}
        self.lm_items_part(o, n, n, n, j, j, 1);
        assert(x.subrange(0, x.len() as int) =~= x);
        lm_flat1(e);
        if before {
            assert(o.items().subrange(j, no) =~= seq![e] + b);
            lm_flat_cat(seq![e], b);
        } else {
            assert(o.items().subrange(0, j) =~= a + seq![e]);
            lm_flat_cat(a, seq![e]);
        }
        assert(self.all() =~= flat(a) + e.subrange(0, k) + x + e.subrange(k, e.len() as int) + flat(b));
    }
    proof fn lm_placed3(&self, o: &Self, c: Cursor, x: Seq<<B::Elem as HasLength>::Unit>, n: RawArenaIndex, s: RawArenaIndex)
        requires o.ts().lnk(o.g@), o.valid(c), self.ts().lnk(self.g@), self.leaf_nodes@.contains_key(n), !o.leaf_nodes.used().contains(n), self.el(n) == x,
            !o.leaf_nodes.used().contains(s), n != s, self.has(c.leaf), self.leaf_nodes@.contains_key(s),
            self.el(c.leaf.0) == o.el(c.leaf.0).subrange(0, c.offset as int), self.el(s) == o.el(c.leaf.0).subrange(c.offset as int, o.el(c.leaf.0).len() as int),
            self.order() == o.order().insert(o.at(c.leaf) + 1, s).insert(o.at(c.leaf) + 1, n), self.ts().same_but(o.ts(), c.leaf.0, s, n)
        ensures self.parts(o, c, x, Cursor { leaf: LeafIndex(n), offset: 0 })
    {
        let l = c.leaf.0;
        let i = o.at(c.leaf);
        let k = c.offset as int;
        let e = o.el(l);
        let e1 = e.subrange(0, k);
        let e2 = e.subrange(k, e.len() as int);
        let no = o.order().len() as int;
        let ns = self.order().len() as int;
        o.lm_at_o(); self.lm_at_o();
        o.lm_around(l);
        assert(self.order()[i + 1] == n);
        assert(self.order()[i + 2] == s);
        assert(self.order()[i] == l);
        let a = o.items().subrange(0, i);
        let b = o.items().subrange(i + 1, no);
        assert forall|q: int| i + 1 <= q < no implies self.order()[q + 2] == #[trigger] o.order()[q] by {}
        self.lm_items_part(o, l, s, n, i, i + 1, 2);
        assert(self.items() =~= a + seq![e1, x, e2] + b) by {
            assert(self.items() =~= self.items().subrange(0, i) + seq![e1, x, e2] + self.items().subrange(i + 3, ns));
        }
        lm_flat3(a, seq![e1, x, e2], b);
        assert(seq![e1, x, e2] =~= seq![e1] + seq![x] + seq![e2]);
        lm_flat3(seq![e1], seq![x], seq![e2]);
        lm_flat1(e1); lm_flat1(e2); lm_flat1(x);
        assert(self.all() =~= flat(a) + e1 + x + e2 + flat(b));
        assert(self.items().subrange(0, i + 1) =~= a + seq![e1]);
        lm_flat_cat(a, seq![e1]);
        assert(x.subrange(0, x.len() as int) =~= x);
    }
    // so the content has x spliced in there, and r points to it
    proof fn lm_placed(&self, o: &Self, c: Cursor, x: Seq<<B::Elem as HasLength>::Unit>, r: Cursor, sl: Seq<LeafIndex>)
        requires o.ts().lnk(o.g@), o.valid(c), self.ts().lnk(self.g@), self.placed(o, c, x, r, sl)
        ensures self.spliced(o, c, x, r)
    {
        let l = c.leaf.0;
        let k = c.offset as int;
        let e = o.el(l);
        o.leaf_nodes.axiom_used(l);
        if r == c && self.order() == o.order() && sl.len() == 0 { self.lm_placed1(o, c, x); }
        else if sl.len() == 0 { self.lm_placed2(o, c, x, r.leaf.0); }
        else { self.lm_placed3(o, c, x, r.leaf.0, sl[0].0); }
        assert(self.parts(o, c, x, r));
        o.lm_around(l);
        let fa = flat(o.items().subrange(0, o.at(c.leaf)));
        let fb = flat(o.items().subrange(o.at(c.leaf) + 1, o.order().len() as int));
        assert(o.all().subrange(0, o.off(c)) =~= fa + e.subrange(0, k));
        assert(o.all().subrange(o.off(c), o.all().len() as int) =~= e.subrange(k, e.len() as int) + fb);
        assert(self.all() =~= o.all().subrange(0, o.off(c)) + x + o.all().subrange(o.off(c), o.all().len() as int));
    }
    // x was put into the content at place i, r points to it
    spec fn put_at(&self, o: &Self, i: int, x: Seq<<B::Elem as HasLength>::Unit>, r: Cursor) -> bool {
        &&& 0 <= i <= o.all().len()
        &&& self.all() == o.all().subrange(0, i) + x + o.all().subrange(i, o.all().len() as int)
        &&& self.has(r.leaf) && self.off(r) == i
        &&& r.offset + x.len() <= self.el(r.leaf.0).len() && self.el(r.leaf.0).subrange(r.offset as int, r.offset + x.len()) == x
    }
    // x was spliced into the content at the cursor c of o, r points to it
    spec fn spliced(&self, o: &Self, c: Cursor, x: Seq<<B::Elem as HasLength>::Unit>, r: Cursor) -> bool { self.put_at(o, o.off(c), x, r) }
    // the cursors before and behind everything (of a tree that has leaves)
    spec fn begin(&self) -> Cursor { Cursor { leaf: LeafIndex(self.order()[0]), offset: 0 } }
    spec fn end(&self) -> Cursor { Cursor { leaf: LeafIndex(self.order().last()), offset: self.el(self.order().last()).len() as usize } }
    proof fn lm_ends(&self)
        requires self.ts().lnk(self.g@), self.ts().elems_ok(), self.order().len() > 0
        ensures self.valid(self.begin()), self.valid(self.end()), self.off(self.begin()) == 0, self.off(self.end()) == self.all().len(),
            self.end().offset == self.el(self.order().last()).len(), self.at(self.begin().leaf) == 0, self.at(self.end().leaf) == self.order().len() - 1
    {
        let n = self.order().len() as int;
        let l = self.order()[n - 1];
        self.lm_at_o();
        self.ts().lm_elems_ok(l);
        self.leaf_nodes@[l].elem.law_len();
        self.lm_around(l);
        assert(self.items().subrange(0, 0) =~= Seq::<Seq<<B::Elem as HasLength>::Unit>>::empty());
        assert(self.items().subrange(n, n) =~= Seq::<Seq<<B::Elem as HasLength>::Unit>>::empty());
        assert(flat(self.items().subrange(n, n)).len() == 0);
    }
    // the tree has the one leaf n with the content x
    proof fn lm_single(&self, o: &Self, x: Seq<<B::Elem as HasLength>::Unit>, n: RawArenaIndex)
        requires self.ts().lnk(self.g@), o.order().len() == 0, self.order() == o.order().insert(0, n), self.el(n) == x
        ensures self.put_at(o, 0, x, Cursor { leaf: LeafIndex(n), offset: 0 }), o.all().len() == 0, self.leaf_nodes@.contains_key(n)
    {
        self.lm_at_o();
        assert(self.order()[0] == n);
        assert(self.items() =~= seq![x]);
        lm_flat1(x);
        assert(o.items() =~= Seq::<Seq<<B::Elem as HasLength>::Unit>>::empty());
        assert(self.items().subrange(0, 0) =~= Seq::<Seq<<B::Elem as HasLength>::Unit>>::empty());
        assert(x.subrange(0, x.len() as int) =~= x);
        assert(self.all() =~= o.all().subrange(0, 0) + x + o.all().subrange(0, o.all().len() as int));
    }
    proof fn lm_used(&self, o: &Self)
        ensures forall|l: RawArenaIndex| #[trigger] o.leaf_nodes@.contains_key(l) ==> o.leaf_nodes.used().contains(l)
    {
        assert forall|l: RawArenaIndex| #[trigger] o.leaf_nodes@.contains_key(l) implies o.leaf_nodes.used().contains(l) by { o.leaf_nodes.axiom_used(l); }
    }
}
