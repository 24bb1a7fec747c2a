// The rope: a text kept in chunks. (C01)
//@ rw let new_cache = caches.iter().map(|x| $$b).sum::<isize>(); ==> let mut new_cache: isize = 0; let mut vx_i = 0usize; while vx_i < caches.len() { let x = &caches[vx_i]; new_cache = new_cache.wrapping_add($$b); vx_i = vx_i + 1; }
//@ rw &[crate::Child<Self>] ==> &[Child<Self>]
//@ rw let diff = new_cache - *cache; ==> let diff = new_cache.wrapping_sub(*cache);
//@ rw *cache += *diff; ==> *cache = (*cache).wrapping_add(*diff);
//@ rw *diff1 += diff2; ==> *diff1 = (*diff1).wrapping_add(*diff2);
//@ rw cache_lhs - cache_rhs ==> (*cache_lhs).wrapping_sub(*cache_rhs)
//@ rw let mut success = true; let offset = index - pos; let valid = self.tree.update_leaf(leaf, |leaf| { $$body }).0; ==> let offset = index - pos; let (vx_r, success) = vx_update_leaf(&mut self.tree, leaf, |leaf: &mut GapBuffer| { let mut success = true; let vx_t = { $$body }; (vx_t, success) }); let valid = vx_r.0;
//@ rw self.cursor = q.and_then(|q| $$body); ==> self.cursor = match q { Some(q) => $$body, None => None };
//@ rw q.map(|x| $$b) ==> (match q { Some(x) => Some($$b), None => None })
//@ rw elem: &str ==> elem: &VxStr
//@ rw impl Iterator<Item = GapBuffer> + '_ ==> VxIter<GapBuffer>
//@ rw std::iter::from_fn(move || { if $$c { return None; } $$body Some(gb) }) ==> let mut vx_v = Vec::new(); while !($$c) { $$body vx_v.push(gb); } vx_iter(vx_v)
//@ rw for chunk in GapBuffer::from_str(elem) { ==> let mut vx_it = GapBuffer::from_str(elem); while let Some(chunk) = vx_it.next() {

// The text given by the caller, as its bytes.
#[verifier::external_body]
struct VxStr { x: core::marker::PhantomData<u8> }
impl View for VxStr { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VxStr {
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: &[u8])
        ensures r@ == self@
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
}

// Arithmetic of isize, which wraps around (contents are shorter than 2^63, then it does not).
spec const WRAP: int = 0x1_0000_0000_0000_0000;
spec fn wi(x: int) -> isize { let m = x % WRAP; if m > TOTAL { (m - WRAP) as isize } else { m as isize } }
proof fn lm_wi(x: int)
    ensures wi(x) as int == (if x % WRAP > TOTAL { x % WRAP - WRAP } else { x % WRAP }), (wi(x) - x) % WRAP == 0, -TOTAL - 1 <= x <= TOTAL ==> wi(x) == x
{}
proof fn lm_wi_same(x: int, y: int)
    requires (x - y) % WRAP == 0
    ensures wi(x) == wi(y)
{}
// wrapping inside makes no difference
proof fn lm_wi_in(a: int, x: int, b: int)
    ensures wi(a + wi(x) + b) == wi(a + x + b)
{ lm_wi(x); lm_wi_same(a + wi(x) + b, a + x + b); }
spec fn us(c: Seq<isize>) -> Seq<int> { c.map_values(|x: isize| x as int) }
proof fn lm_isum_cat(a: Seq<int>, b: Seq<int>)
    ensures isum(a + b) == isum(a) + isum(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { lm_isum_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
proof fn lm_isum1(x: int)
    ensures isum(seq![x]) == x
{ assert(seq![x].drop_last() =~= Seq::<int>::empty()); assert(isum(seq![x].drop_last()) == 0); assert(seq![x].last() == x); }
proof fn lm_isum2(x: int, y: int)
    ensures isum(seq![x, y]) == x + y
{ lm_isum_cat(seq![x], seq![y]); lm_isum1(x); lm_isum1(y); assert(seq![x] + seq![y] =~= seq![x, y]); }
proof fn lm_us_cat(a: Seq<isize>, b: Seq<isize>)
    ensures isum(us(a + b)) == isum(us(a)) + isum(us(b))
{ lm_isum_cat(us(a), us(b)); assert(us(a + b) =~= us(a) + us(b)); }
proof fn lm_us1(x: isize)
    ensures isum(us(seq![x])) == x
{ lm_isum1(x as int); assert(us(seq![x]) =~= seq![x as int]); }
proof fn lm_us2(x: isize, y: isize)
    ensures isum(us(seq![x, y])) == x + y
{ lm_isum2(x as int, y as int); assert(us(seq![x, y]) =~= seq![x as int, y as int]); }
proof fn lm_isum_pos(s: Seq<int>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] >= 0
    ensures isum(s) >= 0
    decreases s.len()
{ if s.len() > 0 { lm_isum_pos(s.drop_last()); } }

impl GapBuffer {
//@ code src/generic_impl/gap_buffer.rs "GapBuffer::from_str" tags=C01,C14,C16
    fn from_str(elem: &VxStr) -> «(r:» VxIter<GapBuffer>«)
        requires elem@.len() <= TOTAL
        ensures good(r@), /*C01 C14*/ text(r@) == elem@»
    {
        «let ghost s = elem@;»
        let mut i = 0;
        let elem = elem.as_bytes();
        let mut vx_v = Vec::new();
        while !(i >= elem.len())
        «    invariant elem@ == s, s.len() <= TOTAL, good(vx_v@), i <= s.len() + MAX_STRING_SIZE, text(vx_v@) == s.subrange(0, if i <= s.len() { i as int } else { s.len() as int })
            decreases s.len() + MAX_STRING_SIZE - i»
        {
            let mut gb = GapBuffer::new();
            gb.push_bytes(&elem[i..(i + MAX_STRING_SIZE).min(elem.len())])
                .unwrap();
            «proof { lm_text_push(vx_v@, gb); assert(text(vx_v@) + gb.content() =~= s.subrange(0, if i + MAX_STRING_SIZE <= s.len() { i + MAX_STRING_SIZE } else { s.len() as int })); }»
            i += MAX_STRING_SIZE;
            vx_v.push(gb);
        }
        «proof { assert(s.subrange(0, s.len() as int) =~= s); }»
        vx_iter(vx_v)
    }
//@ end
}
//@ code src/generic_impl/rope.rs "struct RopeTrait" tags=
struct RopeTrait;
//@ end
impl BTreeTrait for RopeTrait {
//@ code src/generic_impl/rope.rs "BTreeTrait for RopeTrait::type Elem" tags=
    type Elem = GapBuffer;
//@ end
//@ code src/generic_impl/rope.rs "BTreeTrait for RopeTrait::type Cache" tags=
    type Cache = isize;
//@ end
//@ code src/generic_impl/rope.rs "BTreeTrait for RopeTrait::type CacheDiff" tags=
    type CacheDiff = isize;
//@ end
    spec fn ec(e: GapBuffer) -> isize { e.content().len() as isize }
    spec fn sum(c: Seq<isize>) -> isize { wi(isum(us(c))) }
    spec fn c0() -> isize { 0 }
    spec fn app(c: isize, d: isize) -> isize { wi(c + d) }
    spec fn merged(d: isize, e: isize) -> isize { wi(d + e) }
    spec fn exact0() -> bool { true }
    proof fn law_c0() {}
    spec fn cok(c: isize) -> bool { true }
    proof fn law_cok(e: GapBuffer) {}
    proof fn law_cok_sum(c: Seq<isize>) {}
    proof fn law_neutral(c: Seq<isize>, i: int) {
        let (a, b) = (c.subrange(0, i), c.subrange(i + 1, c.len() as int));
        assert(c =~= a + seq![c[i]] + b); assert(c.remove(i) =~= a + b);
        lm_us_cat(a, b); lm_us_cat(a + seq![c[i]], b); lm_us_cat(a, seq![c[i]]); lm_us1(c[i]);
    }
    proof fn law_removable(e: GapBuffer) { assert(e.content().len() == 0); }
    proof fn law_app(c: Seq<isize>, i: int, d: isize) {
        let (a, b, x) = (c.subrange(0, i), c.subrange(i + 1, c.len() as int), wi(c[i] + d));
        assert(c =~= a + seq![c[i]] + b); assert(c.update(i, x) =~= a + seq![x] + b);
        lm_us_cat(a + seq![c[i]], b); lm_us_cat(a, seq![c[i]]); lm_us1(c[i]);
        lm_us_cat(a + seq![x], b); lm_us_cat(a, seq![x]); lm_us1(x);
        lm_wi_in(isum(us(a)), c[i] + d, isum(us(b)));
        lm_wi_in(0, isum(us(c)), d as int);
    }
    proof fn law_merged(c: isize, d: isize, e: isize) { lm_wi_in(c as int, d + e, 0); lm_wi_in(0, c + d, e as int); }
    spec fn nd(c: isize) -> isize { c }
    proof fn law_new(c: Seq<isize>, i: int, x: isize) {
        let (a, b) = (c.subrange(0, i), c.subrange(i, c.len() as int));
        assert(c =~= a + b); assert(c.insert(i, x) =~= a + seq![x] + b);
        lm_us_cat(a, b); lm_us_cat(a + seq![x], b); lm_us_cat(a, seq![x]); lm_us1(x);
        lm_wi_in(0, isum(us(c)), x as int);
    }
    proof fn law_splice(e: GapBuffer, i: int, x: GapBuffer, f: GapBuffer) { lm_wi(f.content().len() as int); }
    proof fn law_cut(a: Seq<isize>, e: GapBuffer, l: GapBuffer, r: GapBuffer, b: Seq<isize>) {
        let (x, y, z) = (Self::ec(e), Self::ec(l), Self::ec(r));
        lm_us_cat(a + seq![y, z], b); lm_us_cat(a, seq![y, z]); lm_us2(y, z);
        lm_us_cat(a + seq![x], b); lm_us_cat(a, seq![x]); lm_us1(x);
    }
    proof fn law_one(c: Seq<isize>) { lm_us1(Self::sum(c)); lm_wi_in(0, isum(us(c)), 0); }
    proof fn law_assoc(a: Seq<isize>, b: Seq<isize>, c: Seq<isize>, d: Seq<isize>) {
        let (x, y, z) = (Self::sum(b), Self::sum(c), Self::sum(b + c));
        lm_us_cat(a + seq![x, y], d); lm_us_cat(a, seq![x, y]); lm_us2(x, y);
        lm_us_cat(a + seq![z], d); lm_us_cat(a, seq![z]); lm_us1(z);
        lm_us_cat(b, c);
        let (sa, sb, sc, sd) = (isum(us(a)), isum(us(b)), isum(us(c)), isum(us(d)));
        lm_wi_in(sa, sb, wi(sc) + sd); lm_wi_in(sa + sb, sc, sd); lm_wi_in(sa, sb + sc, sd);
    }
//@ code src/generic_impl/rope.rs "BTreeTrait for RopeTrait::calc_cache_internal" tags=C01,C05,C16
    fn calc_cache_internal(cache: &mut Self::Cache, caches: &[Child<Self>]) -> isize
    {
        let mut new_cache: isize = 0;
        let mut vx_i = 0usize;
        «let ghost s = Seq::new(caches@.len(), |i: int| caches@[i].cache);
        proof { lm_wi(0); }»
        while vx_i < caches.len()
            «invariant vx_i <= caches@.len(), s.len() == caches@.len(), forall|i: int| 0 <= i < s.len() ==> s[i] == (#[trigger] caches@[i]).cache, new_cache == wi(isum(us(s.take(vx_i as int))))
            decreases caches@.len() - vx_i»
        {
            let x = &caches[vx_i];
            «let ghost c0 = new_cache;»
            new_cache = new_cache.wrapping_add(x.cache);
            «proof {
                let a = s.take(vx_i as int);
                assert(s.take(vx_i + 1) =~= a + seq![x.cache]);
                lm_us_cat(a, seq![x.cache]); lm_us1(x.cache);
                lm_wi_in(0, isum(us(a)), x.cache as int); lm_wi(c0 + x.cache);
            }»
            vx_i = vx_i + 1;
        }
        let diff = new_cache.wrapping_sub(*cache);
        «proof {
            assert(s.take(s.len() as int) =~= s);
            assert forall|z: Seq<isize>| z.len() == caches@.len() && (forall|i: int| 0 <= i < z.len() ==> z[i] == caches@[i].cache) implies new_cache == #[trigger] Self::sum(z) by { assert(z =~= s); }
            lm_wi(new_cache - *cache); lm_wi_in(*cache as int, new_cache - *cache, 0); lm_wi(new_cache as int);
        }»
        *cache = new_cache;
        diff
    }
//@ end
//@ code src/generic_impl/rope.rs "BTreeTrait for RopeTrait::apply_cache_diff" tags=C01,C05,C16
    fn apply_cache_diff(cache: &mut Self::Cache, diff: &Self::CacheDiff) {
        «proof { lm_wi(*cache + *diff); }»
        *cache = (*cache).wrapping_add(*diff);
    }
//@ end
//@ code src/generic_impl/rope.rs "BTreeTrait for RopeTrait::merge_cache_diff" tags=C01,C05,C16
    fn merge_cache_diff(diff1: &mut Self::CacheDiff, diff2: &Self::CacheDiff) {
        «proof { lm_wi(*diff1 + *diff2); }»
        *diff1 = (*diff1).wrapping_add(*diff2);
    }
//@ end
//@ code src/generic_impl/rope.rs "BTreeTrait for RopeTrait::get_elem_cache" tags=C01,C05,C16
    fn get_elem_cache(elem: &Self::Elem) -> Self::Cache {
        elem.len() as isize
    }
//@ end
//@ code src/generic_impl/rope.rs "BTreeTrait for RopeTrait::new_cache_to_diff" tags=C01,C05,C16
    fn new_cache_to_diff(cache: &Self::Cache) -> Self::CacheDiff {
        *cache
    }
//@ end
//@ code src/generic_impl/rope.rs "BTreeTrait for RopeTrait::sub_cache" tags=C01,C05,C16
    fn sub_cache(cache_lhs: &Self::Cache, cache_rhs: &Self::Cache) -> Self::CacheDiff {
        «proof { let (x, y) = (*cache_lhs, *cache_rhs); lm_wi(x - y); lm_wi_in(y as int, x - y, 0); lm_wi(x as int); }»
        (*cache_lhs).wrapping_sub(*cache_rhs)
    }
//@ end
}
impl UseLengthFinder<RopeTrait> for RopeTrait {
    spec fn gl(c: isize) -> int { c as int }
    proof fn law_len_sum(c: Seq<isize>) {
        let s = c.map_values(|x: isize| <Self as UseLengthFinder<RopeTrait>>::gl(x));
        assert(s =~= us(c));
        assert forall|i: int| 0 <= i < s.len() implies s[i] >= 0 by { assert(<Self as UseLengthFinder<RopeTrait>>::gl(c[i]) >= 0); }
        lm_isum_pos(s);
        lm_wi(isum(s));
    }
    proof fn law_len_elem(e: GapBuffer) {}
//@ code src/generic_impl/rope.rs "UseLengthFinder for RopeTrait::get_len" tags=C01,C06,C16
    fn get_len(cache: &<Self as BTreeTrait>::Cache) -> usize {
        *cache as usize
    }
//@ end
}
// What LengthFinder says about the place of the leaf in its node.
proof fn lm_scan_ix<B: BTreeTrait + UseLengthFinder<B>>(ch: Seq<Child<B>>, i: int, left: int, last: int)
    requires 0 <= i <= ch.len(), ch.len() > 0
    ensures 0 <= lf_scan(ch, i, left, last).0 < ch.len()
    decreases ch.len() - i
{ if i < ch.len() && left >= gl::<B>(ch[i].cache) { lm_scan_ix(ch, i + 1, left - gl::<B>(ch[i].cache), left); } }
proof fn lm_lf_slot<B: BTreeTrait + UseLengthFinder<B>>(t: TS<B>, g: G, h: int, i: int, q: LengthFinder, target: usize, found: bool)
    requires t.shape(g), 1 <= h < g.lv.len(), 0 <= i < g.lv[h].len(), t.n(g.lv[h][i]) > 0
    ensures ({
        let r = t.descend(g, q, target, g.lv[h][i], found);
        let l = r.0.cursor.leaf.0;
        let p = t.leaves[l].parent;
        &&& t.leaves.contains_key(l) && t.nodes.contains_key(p) && (g.ht)(p) == 1 && r.1.slot < t.n(p) && (g.lpos)(l) == (g.fst)(p) + r.1.slot
        &&& r.1.parent == if h >= 2 { Some(p) } else { q.parent }
        &&& h == 1 ==> p == g.lv[h][i]
    })
    decreases h
{
    let m = g.lv[h][i];
    let f = (g.fst)(m);
    t.lm_at(g, h, i);
    t.lm_node(g, m);
    t.lm_root(g);
    let (q1, fr) = <LengthFinder as Query<B>>::q_node(q, target, t.nodes[m].ch);
    lm_scan_ix(t.nodes[m].ch, 0, q.left as int, q.left as int);
    let j = fr.index as int;
    t.lm_child(g, m, 0);
    t.lm_child(g, m, j);
    if h == 1 {
        t.lm_leaf(g, g.lv[0][f + j]);
        t.lm_par(g, ArenaIndex::Leaf(g.lv[0][f + j]));
    } else {
        t.lm_at(g, h - 1, f + j);
        t.lm_node(g, g.lv[h - 1][f + j]);
        lm_lf_slot(t, g, h - 1, f + j, q1, target, found && fr.found);
    }
}

// the leaf l of o became the pieces of y and r
#[verifier::opaque]
spec fn updated<B: BTreeTrait>(t: BTree<B>, o: BTree<B>, l: RawArenaIndex, y: B::Elem, r: (bool, Option<B::Elem>, Option<B::Elem>), q: (bool, SplittedLeaves)) -> bool {
    t.pieced(&o, l, pieces(y, r.1, r.2), q) && t.replaced(&o, l, flat(texts(pieces(y, r.1, r.2))))
}
// update_leaf with a function that also gives a flag (in the code: a variable of the caller that the closure captures)
#[verifier::external_body]
fn vx_update_leaf<B: BTreeTrait>(tree: &mut BTree<B>, node_idx: LeafIndex, f: impl FnOnce(&mut B::Elem) -> ((bool, Option<B::Elem>, Option<B::Elem>), bool)) -> (q: ((bool, SplittedLeaves), bool))
    requires old(tree).inv(), old(tree).has(node_idx),
        forall|y: &mut B::Elem| *y == old(tree).leaf_nodes@[node_idx.0].elem ==> call_requires(f, (y,)),
        forall|y: &mut B::Elem, r: ((bool, Option<B::Elem>, Option<B::Elem>), bool)| *y == old(tree).leaf_nodes@[node_idx.0].elem && #[trigger] call_ensures(f, (y,), r)
            ==> lawful::<B>(*y, *final(y), r.0)
    ensures final(tree).inv(), final(tree).uses(old(tree)),
        exists|y: &mut B::Elem, r: ((bool, Option<B::Elem>, Option<B::Elem>), bool)| *y == old(tree).leaf_nodes@[node_idx.0].elem && #[trigger] call_ensures(f, (y,), r)
            && updated::<B>(*final(tree), *old(tree), node_idx.0, *final(y), r.0, q.0) && q.1 == r.1
{ unimplemented!() }

proof fn lm_pieces(y: GapBuffer, a: Option<GapBuffer>, b: Option<GapBuffer>)
    ensures flat(texts(pieces(y, a, b))) == y.content() + (if a is Some { (a->0).content() } else { Seq::empty() }) + (if b is Some { (b->0).content() } else { Seq::empty() })
{
    let (p, q, r) = (part(Some(y)), part(a), part(b));
    assert(texts(p + q + r) =~= texts(p) + texts(q) + texts(r));
    lm_flat3(texts(p), texts(q), texts(r));
    lm_part(Some(y)); lm_part(a); lm_part(b);
}
proof fn lm_updated<B: BTreeTrait>(t: &BTree<B>, o: &BTree<B>, l: RawArenaIndex, y: B::Elem, r: (bool, Option<B::Elem>, Option<B::Elem>), q: (bool, SplittedLeaves))
    requires updated::<B>(*t, *o, l, y, r, q), o.ts().lnk(o.g@), t.ts().lnk(t.g@), o.leaf_nodes@.contains_key(l)
    ensures t.replaced(o, l, flat(texts(pieces(y, r.1, r.2)))), q.0 ==> t.leaf_nodes@.contains_key(l) && t.beg(l) == o.beg(l)
{
    reveal(updated);
    if q.0 { t.lm_pieced_front(o, l, pieces(y, r.1, r.2), q); o.ts().lm_leaf(o.g@, l); t.lm_front_beg(o, (o.g@.lpos)(l) + 1, l); }
}
proof fn lm_part(a: Option<GapBuffer>)
    ensures flat(texts(part(a))) =~= (if a is Some { (a->0).content() } else { Seq::empty() })
{
    if part(a).len() == 0 { assert(texts(part(a)) =~= Seq::<Seq<u8>>::empty()); assert(flat(texts(part(a))) =~= Seq::<u8>::empty()); }
    else { assert(texts(part(a)) =~= seq![(a->0).content()]); lm_flat1((a->0).content()); }
}
impl<B: BTreeTrait> BTree<B> {
    // where a leaf begins
    spec fn beg(&self, l: RawArenaIndex) -> int { flat(self.items().subrange(0, (self.g@.lpos)(l))).len() as int }
    proof fn lm_front_beg(&self, o: &Self, i: int, l: RawArenaIndex)
        requires self.front(o, i), o.ts().lnk(o.g@), self.ts().lnk(self.g@), o.leaf_nodes@.contains_key(l), (o.g@.lpos)(l) < i
        ensures self.leaf_nodes@.contains_key(l), self.beg(l) == o.beg(l)
    {
        o.lm_at_o(); self.lm_at_o();
        o.ts().lm_root(o.g@); o.ts().lm_leaf(o.g@, l);
        let k = (o.g@.lpos)(l);
        assert(self.order()[k] == o.order()[k]);
        assert(self.items().subrange(0, k) =~= o.items().subrange(0, k));
    }
    // z is the content of the leaf l with x put into it, or not
    proof fn lm_spliced_leaf(&self, t: &Self, l: RawArenaIndex, index: int, x: Seq<<B::Elem as HasLength>::Unit>, z: Seq<<B::Elem as HasLength>::Unit>, put: bool)
        requires self.ts().lnk(self.g@), self.leaf_nodes@.contains_key(l), t.replaced(self, l, z), self.beg(l) <= index <= self.beg(l) + self.el(l).len(),
            ({ let e = self.el(l); let k = index - self.beg(l); z == if put { e.subrange(0, k) + x + e.subrange(k, e.len() as int) } else { e.subrange(0, k) + e.subrange(k, e.len() as int) } })
        ensures put ==> t.all() == self.all().subrange(0, index) + x + self.all().subrange(index, self.all().len() as int), !put ==> t.all() == self.all()
    {
        self.lm_around(l);
        let (i, e, k) = ((self.g@.lpos)(l), self.el(l), index - self.beg(l));
        let (fa, fb) = (flat(self.items().subrange(0, i)), flat(self.items().subrange(i + 1, self.order().len() as int)));
        assert(e =~= e.subrange(0, k) + e.subrange(k, e.len() as int));
        if put { assert(t.all() =~= self.all().subrange(0, index) + x + self.all().subrange(index, self.all().len() as int)); } else { assert(t.all() =~= self.all()); }
    }
    proof fn lm_front_less(&self, o: &Self, i: int, j: int)
        requires self.front(o, i), 0 <= j <= i
        ensures self.front(o, j)
    {}
    proof fn lm_pieced_front(&self, o: &Self, l: RawArenaIndex, ps: Seq<B::Elem>, q: (bool, SplittedLeaves))
        requires self.pieced(o, l, ps, q), ps.len() > 0, o.ts().lnk(o.g@), self.ts().lnk(self.g@), o.leaf_nodes@.contains_key(l)
        ensures self.front(o, (o.g@.lpos)(l) + 1)
    {
        o.lm_at_o(); self.lm_at_o();
        o.ts().lm_root(o.g@); o.ts().lm_leaf(o.g@, l);
        let i = (o.g@.lpos)(l);
        let a = q.1.arr@;
        let x = if a.len() > 0 { a[0].0 } else { l };
        let y = if a.len() > 1 { a[1].0 } else { x };
        assert(self.ts().same_but(o.ts(), l, x, y) || self.ts().same_but(o.ts(), l, x, x) || self.ts().same_but(o.ts(), l, l, l));
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] self.order()[j] == o.order()[j] by {}
        assert forall|j: int| 0 <= j < i implies #[trigger] self.items()[j] == o.items()[j] by {
            let z = o.order()[j];
            assert(self.order()[j] == z && z != l);
            if a.len() > 0 && self.order() == o.order() { assert(o.order()[i + 1] == x); }
            if self.ts().same_but(o.ts(), l, x, y) { self.ts().lm_same_but(o.ts(), l, x, y, z); }
            else if self.ts().same_but(o.ts(), l, x, x) { self.ts().lm_same_but(o.ts(), l, x, x, z); }
            else { self.ts().lm_same_but(o.ts(), l, l, l, z); }
        }
    }
    proof fn lm_plen_all(&self, i: int)
        requires 0 <= i <= self.order().len()
        ensures self.ts().plen(self.g@, i) == flat(self.items().subrange(0, i)).len()
        decreases i
    {
        if i > 0 {
            self.lm_plen_all(i - 1);
            assert(self.items().subrange(0, i).drop_last() =~= self.items().subrange(0, i - 1));
        } else { assert(self.items().subrange(0, 0) =~= Seq::<Seq<<B::Elem as HasLength>::Unit>>::empty()); }
    }
}
//@ code src/generic_impl/rope.rs "struct Cursor" tags=
//@ rw struct Cursor { ==> struct RCursor {
struct RCursor {
    pos: usize,
    leaf: LeafIndex,
}
//@ end
//@ code src/generic_impl/rope.rs "struct Rope" tags=
//@ rw Option<Cursor> ==> Option<RCursor>
struct Rope {
    tree: BTree<RopeTrait>,
    cursor: Option<RCursor>,
}
//@ end
impl Rope {
    spec fn text(&self) -> Seq<u8> { self.tree.all() }
    spec fn kept(&self) -> bool {
        &&& self.tree.inv() && self.text().len() <= TOTAL
        // the remembered leaf begins where it says
        &&& self.cursor is Some ==> self.tree.has((self.cursor->0).leaf) && self.tree.beg((self.cursor->0).leaf.0) == (self.cursor->0).pos
    }
    proof fn lm_len(&self)
        requires self.tree.inv(), self.text().len() <= TOTAL
        ensures self.tree.root_cache == self.text().len(), self.tree.ts().plen(self.tree.g@, self.tree.order().len() as int) == self.text().len(),
            self.text().len() > 0 ==> self.tree.order().len() > 0
    {
        let (t, g) = (self.tree.ts(), self.tree.g@);
        self.tree.lm_plen_all(self.tree.order().len() as int);
        assert(self.tree.items().subrange(0, self.tree.order().len() as int) =~= self.tree.items());
        t.lm_root(g);
        self.tree.lm_empty();
        let h = g.lv.len() - 1;
        if self.tree.order().len() > 0 {
            lm_full(t, g, h);
            t.lm_end(g, h, 0);
            lm_start0(t, g, h);
            t.lm_node(g, t.rt());
            lm_span(t, g, h, 0);
        } else {
            assert(self.tree.items() =~= Seq::<Seq<u8>>::empty());
            assert(us(t.kids(t.rt())) =~= Seq::<int>::empty());
        }
    }
//@ code src/generic_impl/rope.rs "Rope::len" tags=C01,C16
    fn len(&self) -> «(r:» usize«)
        requires self.kept()
        ensures /*C01*/ r == self.text().len()»
    {
        «proof { self.lm_len(); }»
        self.tree.root_cache as usize
    }
//@ end
//@ code src/generic_impl/rope.rs "Rope::is_empty" tags=C01,C16
    fn is_empty(&self) -> «(r:» bool«)
        requires self.kept()
        ensures /*C01*/ r == (self.text().len() == 0)»
    {
        «proof { self.lm_len(); }»
        self.tree.root_cache == 0
    }
//@ end
//@ code src/generic_impl/rope.rs "Rope::new" tags=C01,C15
    fn new() -> «(r:» Self«)
        ensures /*C01*/ r.kept() && r.text().len() == 0»
    {
        «let r =» Self {
            tree: BTree::new(),
            cursor: None,
        }«;
        proof { r.lm_new(); }
        r»
    }
//@ end
//@ code src/generic_impl/rope.rs "Rope::insert" tags=C01,C16
//@ rw Cursor { pos $$x } ==> RCursor { pos $$x }
//@ rw let (q, f) = $$u_body GapBuffer::from_str(elem)); } ==> self.vx_insert_query(index, elem); }
    fn insert(&mut self, index: usize, elem: &VxStr)«
        requires old(self).kept(), index <= old(self).text().len(), old(self).text().len() + elem@.len() <= TOTAL
        ensures /*C01*/ final(self).kept(),
            /*C01*/ final(self).text() == old(self).text().subrange(0, index as int) + elem@ + old(self).text().subrange(index as int, old(self).text().len() as int)»
    {
        «let ghost o = self.tree; let ghost c0 = o.all(); let ghost s = elem@;
        let ghost goal = c0.subrange(0, index as int) + s + c0.subrange(index as int, c0.len() as int);»
        if index > self.len() {
            panic!();
        }
        if self.is_empty() {
            let mut vx_it = GapBuffer::from_str(elem);
            «let ghost all = vx_it@; let ghost mut k = 0int; let ghost n0 = o.order().len() as int;
            proof { lm_text0(all.subrange(0, 0)); assert(all.subrange(0, all.len() as int) =~= all); assert(o.all() + text(all.subrange(0, 0)) =~= text(all.subrange(0, 0))); }»
            while let Some(chunk) = vx_it.next()
            «invariant_except_break true
                invariant good(all), 0 <= k <= all.len(), vx_it@ == all.subrange(k, all.len() as int), self.tree.inv(), self.tree.all() == text(all.subrange(0, k)), o.ts().lnk(o.g@),
                    self.cursor == old(self).cursor, self.tree.front(&o, n0), self.tree.order().len() >= n0, n0 == o.order().len()
                ensures vx_it@.len() == 0, k == all.len()
                decreases vx_it@.len()»
            {
                «let ghost u = self.tree; proof { lm_text_push(all.subrange(0, k), all[k]); assert(all.subrange(0, k).push(all[k]) =~= all.subrange(0, k + 1)); assert(chunk == all[k]); }»
                self.tree.push(chunk);
                «proof { k = k + 1; self.tree.lm_front_less(&u, u.order().len() as int, n0); self.tree.lm_front_trans(&u, &o, n0); }»
            }
            «proof {
                assert(self.tree.all() =~= goal);
                if self.cursor is Some { o.ts().lm_root(o.g@); o.ts().lm_leaf(o.g@, (self.cursor->0).leaf.0); self.tree.lm_front_beg(&o, n0, (self.cursor->0).leaf.0); }
            }»
            return;
        }
        if let Some(RCursor { pos, leaf }) = self.cursor {
            if pos <= index {
                let node = self.tree.leaf_nodes.get(leaf.0).unwrap();
                «proof { o.ts().lm_elems_ok(leaf.0); o.lm_around(leaf.0); }»
                if index <= pos + node.elem.len() {
                    let offset = index - pos;
                    «let ghost e0 = o.leaf_nodes@[leaf.0].elem; let ghost l = leaf.0; let ghost ec = e0.content(); let ghost e1 = ec.subrange(0, offset as int); let ghost e2 = ec.subrange(offset as int, ec.len() as int);»
                    let (vx_r, success) = vx_update_leaf(&mut self.tree, leaf, |leaf: &mut GapBuffer| «-> (r: ((bool, Option<GapBuffer>, Option<GapBuffer>), bool))
                        requires old(leaf).ok(), old(leaf).content() == ec, offset <= ec.len()
                        ensures final(leaf).ok(), (r.0).1 is Some ==> ((r.0).1->0).ok(), (r.0).2 is None, (r.0).0,
                            flat(texts(pieces(*final(leaf), (r.0).1, (r.0).2))) == (if r.1 { e1 + s + e2 } else { e1 + e2 })»
                    {
                        let mut success = true;
                        let vx_t = {
                            if leaf.len() + elem.len() < MAX_STRING_SIZE {
                                leaf.insert_bytes(offset, elem.as_bytes()).unwrap();
                                «proof { lm_pieces(*leaf, None, None); assert(leaf.content() + Seq::<u8>::empty() + Seq::<u8>::empty() =~= e1 + s + e2); }»
                                (true, None, None)
                            } else {
                                let mut right = leaf.split(offset);
                                «proof { assert(leaf.content() == e1 && right.content() == e2); }»
                                if leaf.len() + elem.len() < MAX_STRING_SIZE {
                                    success = leaf.push_bytes(elem.as_bytes()).is_ok();
                                } else {
                                    success = right.insert_bytes(0, elem.as_bytes()).is_ok();
                                    «proof { assert(e2.subrange(0, 0) + s + e2.subrange(0, e2.len() as int) =~= s + e2); }»
                                }
                                «proof { lm_pieces(*leaf, Some(right), None); let z = if success { e1 + s + e2 } else { e1 + e2 }; assert(leaf.content() + right.content() + Seq::<u8>::empty() =~= z); }»
                                (true, Some(right), None)
                            }
                        };
                        (vx_t, success)
                    });
                    let valid = vx_r.0;
                    «proof {
                        let t = self.tree; let i = (o.g@.lpos)(l);
                        let z = if success { e1 + s + e2 } else { e1 + e2 };
                        assert(ec =~= e1 + e2);
                        assert(exists|y: GapBuffer, r: (bool, Option<GapBuffer>, Option<GapBuffer>)| #[trigger] updated::<RopeTrait>(t, o, l, y, r, vx_r) && flat(texts(pieces(y, r.1, r.2))) == z);
                        let (y, r) = choose|y: GapBuffer, r: (bool, Option<GapBuffer>, Option<GapBuffer>)| #[trigger] updated::<RopeTrait>(t, o, l, y, r, vx_r) && flat(texts(pieces(y, r.1, r.2))) == z;
                        lm_updated(&t, &o, l, y, r, vx_r);
                        o.lm_spliced_leaf(&t, l, index as int, s, z, success);
                    }»
                    if !valid {
                        self.cursor = None;
                    }
                    if success {
                        return;
                    }
                }
            }
        }
        «assert(self.tree.all() == c0);»
        self.vx_insert_query(index, elem);
    }
//@ end
//@ code src/generic_impl/rope.rs "Rope::insert" tags=C01,C16
//@ rw Cursor { pos $$x } ==> RCursor { pos $$x }
//@ rw fn insert $$u_pre let (q, f) = $$u_body GapBuffer::from_str(elem)); } ==> fn vx_insert_query(&mut self, index: usize, elem: &VxStr) { let (q, f) = $$u_body GapBuffer::from_str(elem)); }
    fn vx_insert_query(&mut self, index: usize, elem: &VxStr)«
        requires old(self).tree.inv(), 0 < old(self).text().len(), index <= old(self).text().len(), old(self).text().len() + elem@.len() <= TOTAL
        ensures /*C01*/ final(self).kept(),
            /*C01*/ final(self).text() == old(self).text().subrange(0, index as int) + elem@ + old(self).text().subrange(index as int, old(self).text().len() as int)»
    {
        «let ghost u = self.tree; let ghost g = u.g@; let ghost s0 = *self;
        proof {
            s0.lm_len();
            u.lm_query(index);
            u.ts().lm_root(g); u.lm_empty();
            lm_full(u.ts(), g, g.lv.len() - 1);
            lm_lf_slot(u.ts(), g, g.lv.len() - 1, 0, <LengthFinder as Query<RopeTrait>>::q_init(index), index, true);
        }»
        let (q, f) = self.tree.query_with_finder_return::<LengthFinder>(&index);
        «let ghost qc = (q->0).cursor; let ghost l = qc.leaf.0; let ghost p = u.leaf_nodes@[l].parent; let ghost i = (g.lpos)(l);
        proof {
            u.ts().lm_leaf(g, l); u.ts().lm_par(g, ArenaIndex::Leaf(l)); u.ts().lm_node(g, p);
            u.lm_plen_all(i); u.lm_plen_all(i + 1); u.lm_next_off(l); u.lm_around(l);
            u.lm_plen_all(u.order().len() as int); assert(u.items().subrange(0, u.order().len() as int) =~= u.items());
            assert(u.off(qc) == index && u.valid(qc));
            if f.slot > 0 {
                let x = g.lv[0][i - 1];
                u.ts().lm_child(g, p, f.slot - 1);
                u.ts().lm_cache(p, f.slot - 1);
                u.lm_plen_all(i - 1); u.lm_next_off(x); u.lm_around(x);
                u.ts().lm_elems_ok(x);
            }
        }»
        self.cursor = match q {
            Some(q) => {
                if q.offset() == 0 {
                    if f.slot == 0 || f.parent.is_none() {
                        None
                    } else {
                        let node = self.tree.in_nodes.get(f.parent.unwrap()).unwrap();
                        «proof { assert(ns(*node) == u.ts().nodes[p]); }»
                        let child = &node.children[f.slot as usize - 1];
                        Some(RCursor {
                            pos: index - child.cache as usize,
                            leaf: child.arena.unwrap().into(),
                        })
                    }
                } else {
                    Some(RCursor {
                        pos: index - q.offset(),
                        leaf: q.leaf(),
                    })
                }
            },
            None => None
        };
        «let ghost cur = self.cursor;»
        self.tree
            .insert_many_by_cursor((match q { Some(x) => Some(x.cursor), None => None }), GapBuffer::from_str(elem));
        «proof {
            if cur is Some { self.tree.lm_front_beg(&u, u.place(qc), (cur->0).leaf.0); }
        }»
    }
//@ end
    proof fn lm_new(&self)
        requires self.tree.fresh(), self.tree.inv()
        ensures self.text().len() == 0
    { }
//@ code src/generic_impl/rope.rs "Rope::node_len" tags=C01,C15
    fn node_len(&self) -> «(r:» usize«)
        ensures r == self.tree.in_nodes@.dom().len() + self.tree.leaf_nodes@.dom().len()»
    {
        self.tree.node_len()
    }
//@ end
//@ code src/generic_impl/rope.rs "Rope::clear" tags=C01,C15
    fn clear(&mut self)«
        ensures /*C01 C15*/ final(self).kept() && final(self).text().len() == 0»
    {
        self.cursor = None;
        self.tree.clear();
        «proof { self.lm_new(); }»
    }
//@ end
}
impl Rope {
//@ code src/generic_impl/rope.rs "Default for Rope::default" tags=C01,C15
    fn default() -> «(r:» Self«)
        ensures r.kept() && r.text().len() == 0»
    {
        Self::new()
    }
//@ end
}
