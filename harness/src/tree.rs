//! Pre/post checking of every public tree operation on real trees.
use crate::elem::*;
use crate::{Ctx, Rec, Viol};
use generic_btree::rle::HasLength;
use generic_btree::{
    ArenaIndex, BTree, BTreeTrait, Cursor, LeafIndex, LengthFinder, PreviousCache, QueryResult,
};
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};

type El<const TRY: bool, const CAP: usize> = E<TRY, CAP>;

pub struct Snap<const TRY: bool, const CAP: usize> {
    pub leaves: Vec<(LeafIndex, El<TRY, CAP>)>,
    pub pos: HashMap<LeafIndex, usize>,
    /// item index at which each leaf starts (one extra entry: the total)
    pub start: Vec<usize>,
    pub items: Vec<Item>,
    pub height: usize,
    pub nodes: usize,
    /// for each leaf: (is first child of its node, is last child of its node)
    pub edge: Vec<(bool, bool)>,
}

pub struct St<const DIFF: bool, const NC: bool, const TRY: bool, const CAP: usize> {
    pub t: BTree<Tr<DIFF, NC, TRY, CAP>>,
    next_id: u32,
    handles: Vec<(LeafIndex, El<TRY, CAP>)>,
    dead: Vec<LeafIndex>,
    shadow: Option<(BTree<Tr<DIFF, NC, TRY, CAP>>, Vec<(LeafIndex, El<TRY, CAP>)>, Sum, usize)>,
    focus: usize,
}

pub const OPS: &[&str] = &[
    "insert_by_path", "insert_query", "push", "prepend", "insert_many", "remove_leaf", "remove_run",
    "drain", "drain_by_query", "update", "update_leaf", "update_leaf_by_search",
    "update_ranges", "from_iter", "clear_many", "clear", "clone", "check_nav", "check_query",
    "check_range", "grab", "remove_dead", "filter_update", "edit_elem",
];

/// weights per property, in the order of OPS
pub fn weights(prop: &str) -> [u32; 24] {
    match prop {
        //        ip iq pu pr im rm rr dr dq up ul us ur fi cm cl cn nv qy rg gr rd fu ed
        "C03" => [30, 12, 10, 10, 14, 6, 3, 2, 0, 0, 0, 0, 0, 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0],
        "C06" => [16, 4, 4, 4, 4, 8, 3, 3, 3, 1, 2, 2, 1, 3, 1, 1, 0, 0, 30, 0, 0, 0, 0, 1],
        "C07" => [16, 4, 4, 4, 6, 16, 5, 5, 2, 2, 4, 4, 2, 2, 1, 1, 0, 0, 0, 0, 14, 8, 0, 1],
        "C08" => [16, 2, 4, 4, 4, 34, 12, 2, 0, 0, 0, 0, 0, 4, 2, 1, 0, 0, 0, 0, 3, 5, 0, 0],
        "C09" => [16, 2, 6, 6, 8, 4, 2, 22, 14, 0, 0, 0, 0, 8, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0],
        "C10" => [16, 2, 6, 6, 8, 8, 3, 4, 2, 1, 1, 1, 1, 6, 2, 1, 0, 26, 0, 0, 0, 0, 0, 0],
        "C11" => [16, 2, 6, 6, 8, 8, 3, 4, 2, 1, 1, 1, 1, 6, 2, 1, 0, 0, 0, 26, 0, 0, 0, 0],
        "C12" => [14, 2, 4, 4, 4, 4, 2, 2, 0, 14, 18, 18, 10, 5, 1, 1, 0, 0, 0, 0, 0, 0, 3, 3],
        "C13" => [12, 2, 5, 5, 24, 6, 3, 2, 0, 0, 0, 0, 0, 16, 14, 3, 0, 0, 0, 0, 0, 0, 0, 0],
        "C15" => [16, 2, 6, 6, 4, 8, 3, 4, 2, 2, 3, 3, 1, 3, 3, 8, 16, 1, 1, 1, 2, 1, 0, 1],
        "C16" => [14, 4, 6, 6, 8, 8, 4, 6, 4, 4, 5, 5, 4, 5, 4, 5, 1, 5, 5, 5, 1, 2, 1, 1],
        _ => [14, 3, 5, 5, 7, 10, 4, 5, 3, 4, 6, 6, 4, 4, 3, 2, 2, 1, 1, 1, 2, 1, 1, 2],
    }
}

/// the property an operation's own result belongs to
pub fn op_prop(op: &str) -> &'static str {
    match op {
        "insert_by_path" | "insert_query" | "push" | "prepend" | "insert_many" => "C03",
        "remove_leaf" | "remove_run" | "remove_dead" => "C08",
        "drain" | "drain_by_query" => "C09",
        "update" | "update_leaf" | "update_leaf_by_search" | "update_ranges" | "filter_update"
        | "edit_elem" => "C12",
        "from_iter" | "clear_many" => "C13",
        "clear" | "clone" => "C15",
        "check_nav" => "C10",
        "check_query" => "C06",
        "check_range" => "C11",
        "grab" => "C07",
        _ => "C16",
    }
}

fn raw(i: ArenaIndex) -> LeafIndex {
    LeafIndex::from(i.unwrap_leaf())
}

impl<const DIFF: bool, const NC: bool, const TRY: bool, const CAP: usize> St<DIFF, NC, TRY, CAP> {
    pub fn new() -> Self {
        St {
            t: BTree::new(),
            next_id: 0,
            handles: vec![],
            dead: vec![],
            shadow: None,
            focus: 0,
        }
    }

    fn elem(&mut self, r: u32) -> El<TRY, CAP> {
        let m = r % 16;
        if m == 0 {
            self.next_id += 1;
            return E {
                cls: 0,
                v: vec![],
                zero: Some(self.next_id),
            };
        }
        let cls = ((r >> 4) % 3) as u8;
        let n = 1 + (r >> 8) as usize % CAP.max(if cls == 0 { 3 } else { 1 });
        let mut v = vec![];
        for _ in 0..n {
            self.next_id += 1;
            v.push(self.next_id & ID);
        }
        E { cls, v, zero: None }
    }

    /// Reads the whole structure and judges it (C04, C05). Err = cannot even be traversed.
    pub fn snap(&self, cx: &mut Ctx) -> Result<Snap<TRY, CAP>, ()> {
        Self::snap_of(&self.t, cx)
    }

    fn snap_of(t: &BTree<Tr<DIFF, NC, TRY, CAP>>, cx: &mut Ctx) -> Result<Snap<TRY, CAP>, ()> {
        let d = t.verif_dump();
        let nodes: HashMap<_, _> = d.nodes.iter().map(|n| (n.index, n)).collect();
        let lp: HashMap<_, _> = d.leaves.iter().map(|l| (l.index, l.parent)).collect();
        let mut s = Snap {
            leaves: vec![],
            pos: HashMap::new(),
            start: vec![],
            items: vec![],
            height: 0,
            nodes: d.nodes.len(),
            edge: vec![],
        };
        let root = match d.root {
            ArenaIndex::Internal(i) => i,
            _ => {
                cx.bad("C04", "root is not an internal node".into());
                return Err(());
            }
        };
        let mut seen = HashSet::new();
        let mut depth = None;
        // (node, depth, expected parent)
        #[allow(clippy::too_many_arguments)]
        fn go<const DIFF: bool, const NC: bool, const TRY: bool, const CAP: usize, I>(
            t: &BTree<Tr<DIFF, NC, TRY, CAP>>,
            nodes: &HashMap<I, &generic_btree::verif::VerifNode<Sum>>,
            lp: &HashMap<I, I>,
            seen: &mut HashSet<I>,
            s: &mut Snap<TRY, CAP>,
            cx: &mut Ctx,
            n: I,
            dep: usize,
            depth: &mut Option<usize>,
            cap: usize,
            conv: &dyn Fn(ArenaIndex) -> (bool, I),
        ) -> Result<Sum, ()>
        where
            I: Copy + Eq + std::hash::Hash + std::fmt::Debug,
        {
            if !seen.insert(n) {
                cx.bad("C04", format!("node {:?} reachable twice", n));
                return Err(());
            }
            if dep > 60 {
                cx.bad("C04", "tree deeper than 60".into());
                return Err(());
            }
            let Some(node) = nodes.get(&n) else {
                cx.bad("C04", format!("child entry names dead node {:?}", n));
                return Err(());
            };
            if node.children.len() >= cap {
                cx.bad("C04", format!("node with {} children (capacity {})", node.children.len(), cap));
            }
            if node.children.is_empty() && dep > 0 {
                cx.bad("C04", "non-root node without children".into());
            }
            let mut total = Sum::default();
            for (i, (c, cache)) in node.children.iter().enumerate() {
                let (is_leaf, ci) = conv(*c);
                let truth = if is_leaf {
                    let li = raw(*c);
                    let Some(e) = t.get_elem(li) else {
                        cx.bad("C04", "child entry names dead leaf".into());
                        return Err(());
                    };
                    if s.pos.contains_key(&li) {
                        cx.bad("C04", "leaf reachable twice".into());
                        return Err(());
                    }
                    match depth {
                        None => *depth = Some(dep),
                        Some(x) if *x != dep => {
                            cx.bad("C04", format!("leaves at depths {} and {}", x, dep))
                        }
                        _ => {}
                    }
                    match lp.get(&ci) {
                        Some(p) if *p == n => {}
                        p => cx.bad(
                            "C04",
                            format!("leaf's parent is {:?} but it is a child of {:?}", p, n),
                        ),
                    }
                    s.pos.insert(li, s.leaves.len());
                    s.start.push(s.items.len());
                    s.items.extend(e.items());
                    s.leaves.push((li, e.clone()));
                    s.edge.push((i == 0, i + 1 == node.children.len()));
                    Tr::<DIFF, NC, TRY, CAP>::get_elem_cache(e)
                } else {
                    if let Some(cn) = nodes.get(&ci) {
                        let p = cn.parent.map(conv);
                        if p != Some((false, n)) || cn.parent_slot as usize != i {
                            cx.bad(
                                "C04",
                                format!(
                                    "node's parent/slot is {:?}/{} but it is child {} of {:?}",
                                    cn.parent, cn.parent_slot, i, n
                                ),
                            );
                        }
                    }
                    go(t, nodes, lp, seen, s, cx, ci, dep + 1, depth, cap, conv)?
                };
                if *cache != truth {
                    cx.bad(
                        "C05",
                        format!("stored cache {:?} but subtree summarises to {:?}", cache, truth),
                    );
                }
                total = concat::<NC>(&total, &truth);
            }
            s.height = s.height.max(dep + 1);
            Ok(total)
        }
        let conv = |a: ArenaIndex| match a {
            ArenaIndex::Leaf(i) => (true, i),
            ArenaIndex::Internal(i) => (false, i),
        };
        let total = go(
            t, &nodes, &lp, &mut seen, &mut s, cx, root, 0, &mut depth, d.capacity, &conv,
        )?;
        if let Some(r) = nodes.get(&root) {
            if r.parent.is_some() {
                cx.bad("C04", "root has a parent".into());
            }
        }
        if seen.len() != d.nodes.len() {
            cx.bad("C04", format!("{} nodes stored, {} reachable", d.nodes.len(), seen.len()));
        }
        if s.leaves.len() != d.leaves.len() {
            cx.bad("C04", format!("{} leaves stored, {} reachable", d.leaves.len(), s.leaves.len()));
        }
        if t.node_len() != d.nodes.len() + d.leaves.len() {
            cx.bad("C04", "node_len() differs from the stored node count".into());
        }
        if *t.root_cache() != total {
            cx.bad("C05", format!("root_cache {:?} but tree summarises to {:?}", t.root_cache(), total));
        }
        s.start.push(s.items.len());
        Ok(s)
    }

    fn pick_leaf(&self, s: &Snap<TRY, CAP>, a: u32, mode: u32) -> usize {
        let n = s.leaves.len();
        match mode % 8 {
            0 => 0,
            1 => n - 1,
            2 => self.focus.min(n - 1),
            3 | 4 => {
                let k = a as usize % n;
                (0..n)
                    .map(|j| (k + j) % n)
                    .find(|&j| s.edge[j].0 || s.edge[j].1)
                    .unwrap_or(k)
            }
            _ => a as usize % n,
        }
    }

    fn pick_cursor(&mut self, s: &Snap<TRY, CAP>, a: u32, mode: u32) -> (Cursor, usize) {
        let li = self.pick_leaf(s, a, mode);
        self.focus = li;
        let len = s.leaves[li].1.rle_len();
        let off = match (mode >> 3) % 4 {
            0 => 0,
            1 => len,
            _ => (mode >> 6) as usize % (len + 1),
        };
        (
            Cursor {
                leaf: s.leaves[li].0,
                offset: off,
            },
            s.start[li] + off,
        )
    }

    fn item_index(&self, s: &Snap<TRY, CAP>, c: Cursor) -> Option<usize> {
        let i = *s.pos.get(&c.leaf)?;
        if c.offset > s.leaves[i].1.rle_len() {
            return None;
        }
        Some(s.start[i] + c.offset)
    }

    /// item index of the first item reached by scanning p units of length
    fn scan(&self, s: &Snap<TRY, CAP>, p: usize) -> (usize, usize, bool) {
        let mut left = p;
        for (i, (_, e)) in s.leaves.iter().enumerate() {
            if left < e.rle_len() {
                return (i, left, true);
            }
            if i + 1 == s.leaves.len() {
                return (i, left, false);
            }
            left -= e.rle_len();
        }
        unreachable!()
    }

    fn expect_items(&self, cx: &mut Ctx, prop: &'static str, post: &Snap<TRY, CAP>, want: &[Item]) {
        if post.items != want {
            let k = post
                .items
                .iter()
                .zip(want)
                .position(|(a, b)| a != b)
                .unwrap_or(post.items.len().min(want.len()));
            cx.bad(
                prop,
                format!(
                    "content differs at item {}: {} items, expected {}; got {:?} want {:?}",
                    k,
                    post.items.len(),
                    want.len(),
                    &post.items[k.saturating_sub(1)..post.items.len().min(k + 4)],
                    &want[k.saturating_sub(1).min(want.len())..want.len().min(k + 4)]
                ),
            );
        }
    }

    /// every leaf new in `post` must be in `known`
    fn expect_reported(
        &self,
        cx: &mut Ctx,
        prop: &'static str,
        pre: &Snap<TRY, CAP>,
        post: &Snap<TRY, CAP>,
        known: &[LeafIndex],
    ) {
        for (l, _) in &post.leaves {
            if !pre.pos.contains_key(l) && !known.contains(l) {
                cx.bad(prop, format!("new leaf {:?} is not reported to the caller", l));
                return;
            }
        }
    }

    fn forget_handles(&mut self) {
        self.handles.clear();
        self.dead.clear();
        self.focus = 0;
    }

    pub fn step(&mut self, cx: &mut Ctx, r: &Rec, prop: &str) -> Result<(), ()> {
        let w = weights(prop);
        let tot: u32 = w.iter().sum();
        let mut x = r[0] % tot;
        let mut op = 0;
        while x >= w[op] {
            x -= w[op];
            op += 1;
        }
        let mut name = OPS[op];
        let mut pre = self.snap(cx)?;
        if pre.leaves.is_empty() {
            // operations that need an existing leaf
            if matches!(
                name,
                "insert_by_path" | "remove_leaf" | "remove_run" | "update" | "update_leaf"
                    | "update_leaf_by_search" | "update_ranges" | "grab" | "edit_elem"
            ) {
                name = if r[1] % 2 == 0 { "push" } else { "insert_query" };
            }
        }
        if NC && matches!(name, "update" | "update_leaf_by_search" | "update_ranges") {
            name = "update_leaf";
            if pre.leaves.is_empty() {
                name = "push"
            }
        }
        if pre.leaves.len() > 3500 && matches!(name, "insert_many" | "clear_many" | "from_iter") {
            name = "remove_run";
        }
        cx.op(name);
        let me = op_prop(name);
        // leaves whose element the operation may change or remove
        let mut touched: HashSet<LeafIndex> = HashSet::new();
        let n = pre.leaves.len();
        let total: usize = pre.leaves.iter().map(|l| l.1.rle_len()).sum();
        let mut check_handles = true;
        match name {
            "insert_by_path" | "insert_query" => {
                let e = self.elem(r[3]);
                let new = e.items();
                let (at, res) = if name == "insert_by_path" {
                    let (c, at) = self.pick_cursor(&pre, r[1], r[2]);
                    touched.insert(c.leaf);
                    cx.log(format!("insert_by_path({:?}, {:?})", c, e));
                    (at, self.t.insert_by_path(c, e))
                } else {
                    let p = if n == 0 { 0 } else { r[1] as usize % (total + 1) };
                    let at = if n == 0 {
                        0
                    } else {
                        let (l, o, _) = self.scan(&pre, p);
                        touched.insert(pre.leaves[l].0);
                        pre.start[l] + o
                    };
                    cx.log(format!("insert::<LengthFinder>({}, {:?})", p, e));
                    (at, self.t.insert::<LengthFinder>(&p, e))
                };
                let post = self.snap(cx)?;
                let mut want = pre.items.clone();
                want.splice(at..at, new);
                self.expect_items(cx, me, &post, &want);
                if self.item_index(&post, res.0) != Some(at) {
                    cx.bad(me, format!("returned cursor {:?} is not where the data begins", res.0));
                }
                let mut known = res.1.arr.to_vec();
                known.push(res.0.leaf);
                self.expect_reported(cx, me, &pre, &post, &known);
            }
            "push" | "prepend" => {
                let e = self.elem(r[3]);
                let new = e.items();
                let at = if name == "push" { pre.items.len() } else { 0 };
                if n > 0 {
                    touched.insert(pre.leaves[if name == "push" { n - 1 } else { 0 }].0);
                }
                cx.log(format!("{}({:?})", name, e));
                let c = if name == "push" {
                    self.t.push(e)
                } else {
                    self.t.prepend(e)
                };
                let post = self.snap(cx)?;
                let mut want = pre.items.clone();
                want.splice(at..at, new);
                self.expect_items(cx, me, &post, &want);
                if self.item_index(&post, c) != Some(at) {
                    cx.bad(me, format!("returned cursor {:?} is not where the data begins", c));
                }
            }
            "insert_many" | "clear_many" => {
                if name == "clear_many" {
                    self.t.clear();
                    self.forget_handles();
                    pre = self.snap(cx)?;
                }
                let n = pre.leaves.len();
                let k = match r[3] % 8 {
                    0 => (r[3] >> 8) as usize % 3,
                    1 | 2 if name == "clear_many" || r[3] % 64 == 1 => {
                        // around exact fan-out multiples
                        let b = [12, 24, 144, 132, 120, 156, 288][(r[3] >> 8) as usize % 7];
                        b + (r[3] >> 16) as usize % 3 - 1
                    }
                    3 if name == "clear_many" => (r[3] >> 8) as usize % 400,
                    _ => (r[3] >> 8) as usize % 14,
                };
                let mut es = vec![];
                let mut g = r[4] as u64 | 1;
                for _ in 0..k {
                    g = crate::splitmix(g);
                    es.push(self.elem(g as u32));
                }
                let (c, at) = if n == 0 {
                    (None, 0)
                } else {
                    let (c, at) = self.pick_cursor(&pre, r[1], r[2]);
                    (Some(c), at)
                };
                if let Some(c) = c {
                    let i = pre.pos[&c.leaf];
                    for j in i.saturating_sub(1)..(i + 2).min(n) {
                        touched.insert(pre.leaves[j].0);
                    }
                }
                let new: Vec<Item> = es.iter().flat_map(|e| e.items()).collect();
                cx.log(format!("insert_many_by_cursor({:?}, {:?})", c, es));
                self.t.insert_many_by_cursor(c, es.into_iter());
                let post = self.snap(cx)?;
                let mut want = pre.items.clone();
                want.splice(at..at, new);
                self.expect_items(cx, me, &post, &want);
                if me == "C03" {
                    self.expect_items(cx, "C13", &post, &want);
                }
                if name == "clear_many" {
                    check_handles = false;
                }
            }
            "from_iter" => {
                let k = match r[1] % 4 {
                    0 => r[2] as usize % 30,
                    1 => {
                        let b = [10, 100, 12, 144, 110, 1000, 120][r[2] as usize % 7];
                        (b + (r[2] >> 8) as usize % 3) - 1
                    }
                    2 => r[2] as usize % 300,
                    _ => r[2] as usize % 1500,
                };
                let mut es = vec![];
                let mut g = r[4] as u64 | 1;
                for _ in 0..k {
                    g = crate::splitmix(g);
                    es.push(self.elem(g as u32));
                }
                let want: Vec<Item> = es.iter().flat_map(|e| e.items()).collect();
                cx.log(format!("from_iter({} elements)", k));
                self.forget_handles();
                self.t = es.into_iter().collect();
                let post = self.snap(cx)?;
                self.expect_items(cx, me, &post, &want);
                check_handles = false;
            }
            "remove_leaf" => {
                let li = self.pick_leaf(&pre, r[1], r[2]);
                self.focus = li;
                let (l, e) = pre.leaves[li].clone();
                touched.insert(l);
                cx.log(format!("remove_leaf({:?})", l));
                let got = self.t.remove_leaf(Cursor { leaf: l, offset: 0 });
                if got.as_ref() != Some(&e) {
                    cx.bad(me, format!("returned {:?}, the leaf held {:?}", got, e));
                }
                let post = self.snap(cx)?;
                let mut want = pre.items.clone();
                want.drain(pre.start[li]..pre.start[li + 1]);
                self.expect_items(cx, me, &post, &want);
                self.dead.push(l);
            }
            "remove_run" => {
                let k = match r[3] % 4 {
                    0 => n,
                    1 => n.saturating_sub(1),
                    _ => (r[3] >> 4) as usize % 40,
                }
                .min(n)
                .min(260);
                let mut at = self.pick_leaf(&pre, r[1], r[2]);
                let mut left: Vec<_> = pre.leaves.clone();
                cx.log(format!("remove {} leaves from number {}", k, at));
                for j in 0..k {
                    if at >= left.len() {
                        at = left.len() - 1;
                    }
                    if r[4] % 3 == 0 {
                        at = (at + 5 * j) % left.len();
                    }
                    let (l, e) = left.remove(at);
                    touched.insert(l);
                    let got = self.t.remove_leaf(Cursor { leaf: l, offset: 0 });
                    if got.as_ref() != Some(&e) {
                        cx.bad(me, format!("returned {:?}, the leaf held {:?}", got, e));
                    }
                    self.dead.push(l);
                    if j % 8 == 7 {
                        self.snap(cx)?;
                    }
                }
                let post = self.snap(cx)?;
                let want: Vec<Item> = left.iter().flat_map(|e| e.1.items()).collect();
                self.expect_items(cx, me, &post, &want);
            }
            "remove_dead" => {
                if let Some(l) = self.dead.get(r[1] as usize % self.dead.len().max(1)).copied() {
                    cx.log(format!("remove_leaf({:?}) again", l));
                    if self.t.remove_leaf(Cursor { leaf: l, offset: 0 }).is_some() {
                        cx.bad("C08", "removing a removed leaf returned an element".into());
                        cx.bad("C07", "a dead handle removed a live element".into());
                    }
                    let post = self.snap(cx)?;
                    self.expect_items(cx, me, &post, &pre.items);
                }
            }
            "drain" | "drain_by_query" => {
                let take = if r[5] % 3 == 0 { r[5] as usize % 7 } else { usize::MAX };
                let (a, b, got) = if name == "drain" {
                    if n == 0 {
                        cx.log("drain_by_query on empty tree".into());
                        let got: Vec<_> = self.t.drain_by_query::<LengthFinder>(0..0).take(take).collect();
                        (0, 0, got)
                    } else {
                        let (mut c1, mut a) = self.pick_cursor(&pre, r[1], r[2]);
                        let (mut c2, mut b) = if r[3] % 4 == 0 {
                            // a nearby end
                            let i = pre.pos[&c1.leaf];
                            let j = (i + (r[3] >> 4) as usize % 4).min(n - 1);
                            let len = pre.leaves[j].1.rle_len();
                            let o = r[4] as usize % (len + 1);
                            (Cursor { leaf: pre.leaves[j].0, offset: o }, pre.start[j] + o)
                        } else {
                            self.pick_cursor(&pre, r[3], r[4])
                        };
                        if a > b || (a == b && pre.pos[&c1.leaf] > pre.pos[&c2.leaf]) {
                            std::mem::swap(&mut c1, &mut c2);
                            std::mem::swap(&mut a, &mut b);
                        }
                        for j in pre.pos[&c1.leaf]..=pre.pos[&c2.leaf] {
                            touched.insert(pre.leaves[j].0);
                        }
                        cx.log(format!("drain({:?}..{:?}) take {}", c1, c2, take));
                        let f = |cursor| QueryResult { cursor, found: true };
                        let got: Vec<_> = self.t.drain(f(c1)..f(c2)).take(take).collect();
                        (a, b, got)
                    }
                } else {
                    let (p, q) = (r[1] as usize % (total + 1), r[3] as usize % (total + 1));
                    let (p, q) = match r[2] % 5 {
                        0 => (p, p),
                        1 => (0, p),
                        2 => (p, total),
                        _ => (p.min(q), p.max(q)),
                    };
                    cx.log(format!("drain_by_query({}..{}) take {}", p, q, take));
                    let (a, b) = if n == 0 {
                        (0, 0)
                    } else {
                        let (l1, o1, _) = self.scan(&pre, p);
                        let (l2, o2, _) = self.scan(&pre, q);
                        for j in l1..=l2 {
                            touched.insert(pre.leaves[j].0);
                        }
                        (pre.start[l1] + o1, pre.start[l2] + o2)
                    };
                    let got: Vec<_> = self.t.drain_by_query::<LengthFinder>(p..q).take(take).collect();
                    (a, b, got)
                };
                let post = self.snap(cx)?;
                let y: Vec<Item> = got.iter().flat_map(|e| e.items()).collect();
                let whole = &pre.items[a..b];
                if (take == usize::MAX && y != whole) || !whole.starts_with(&y) || (got.len() < take && y != whole) {
                    cx.bad(me, format!("yielded {:?}, the range holds {:?}", y, whole));
                }
                let mut want = pre.items.clone();
                want.drain(a..b);
                self.expect_items(cx, me, &post, &want);
            }
            "update" => {
                let (mut c1, mut a) = self.pick_cursor(&pre, r[1], r[2]);
                let (mut c2, mut b) = if r[3] % 4 == 0 {
                    let i = pre.pos[&c1.leaf];
                    let j = (i + (r[3] >> 4) as usize % 3).min(n - 1);
                    let len = pre.leaves[j].1.rle_len();
                    let o = r[4] as usize % (len + 1);
                    (Cursor { leaf: pre.leaves[j].0, offset: o }, pre.start[j] + o)
                } else {
                    self.pick_cursor(&pre, r[3], r[4])
                };
                if a > b || (a == b && pre.pos[&c1.leaf] > pre.pos[&c2.leaf]) {
                    std::mem::swap(&mut c1, &mut c2);
                    std::mem::swap(&mut a, &mut b);
                }
                for j in pre.pos[&c1.leaf]..=pre.pos[&c2.leaf] {
                    touched.insert(pre.leaves[j].0);
                }
                let mode = r[5] % 6;
                // what happens to an element depends on its first atom only
                let decide = move |e: &El<TRY, CAP>| -> u32 {
                    match e.v.first() {
                        None => 0,
                        Some(x) => match mode {
                            0 => 1,
                            1 => 2,
                            2 => (x & ID) % 3,
                            3 => (x & ID) % 2,
                            4 => 0,
                            _ => ((x & ID) % 5 == 0) as u32 * 2,
                        },
                    }
                };
                cx.log(format!("update({:?}..{:?}, mode {})", c1, c2, mode));
                let mut calls: Vec<(Vec<Item>, Vec<Item>)> = vec![];
                let sp = self.t.update(c1..c2, &mut |e: &mut El<TRY, CAP>| {
                    let was = e.items();
                    let old = Tr::<DIFF, NC, TRY, CAP>::get_elem_cache(e);
                    let k = decide(e);
                    match k {
                        1 => e.v.iter_mut().for_each(|x| *x = bump(*x)),
                        2 => {
                            e.v.clear();
                        }
                        _ => {}
                    }
                    calls.push((was, e.items()));
                    let new = Tr::<DIFF, NC, TRY, CAP>::get_elem_cache(e);
                    if k == 0 {
                        None
                    } else {
                        Some(Tr::<DIFF, NC, TRY, CAP>::sub_cache(&new, &old))
                    }
                });
                let post = self.snap(cx)?;
                let seen: Vec<Item> = calls.iter().flat_map(|c| c.0.clone()).collect();
                if seen != pre.items[a..b] {
                    cx.bad(me, format!("callback saw {:?}, the range holds {:?}", seen, &pre.items[a..b]));
                }
                let out: Vec<Item> = calls.iter().flat_map(|c| c.1.clone()).collect();
                let mut want = pre.items.clone();
                want.splice(a..b, out);
                self.expect_items(cx, me, &post, &want);
                self.expect_reported(cx, me, &pre, &post, &sp.arr);
            }
            "update_leaf" => {
                let li = self.pick_leaf(&pre, r[1], r[2]);
                self.focus = li;
                let (l, e0) = pre.leaves[li].clone();
                touched.insert(l);
                let mode = r[3] % 9;
                let (n1, n2) = (self.elem(r[4]), self.elem(r[5]));
                let empty = E { cls: 0, v: vec![], zero: None };
                let (mut main, mut i1, mut i2, mut flag) = (e0.clone(), None, None, true);
                match mode {
                    0 => {
                        main.v.iter_mut().for_each(|x| *x = bump(*x));
                    }
                    1 => {
                        main.v.clear();
                        main.zero = None;
                    }
                    2 => i1 = Some(n1),
                    3 => {
                        i1 = Some(n1);
                        i2 = Some(n2);
                    }
                    4 => {
                        main.v.clear();
                        main.zero = None;
                        i1 = Some(n1);
                    }
                    5 => {
                        main.v.clear();
                        main.zero = None;
                        i1 = Some(n1);
                        i2 = Some(n2);
                    }
                    6 => {
                        i1 = Some(empty.clone());
                        i2 = if r[3] & 64 == 0 { Some(n2) } else { None };
                    }
                    7 => {
                        // split off the right half
                        if main.v.len() > 1 {
                            let k = 1 + r[4] as usize % (main.v.len() - 1);
                            let t = main.v.split_off(k);
                            i1 = Some(E { cls: main.cls, v: t, zero: None });
                            if r[3] & 64 != 0 {
                                i2 = i1.take();
                            }
                        } else {
                            i2 = Some(n2);
                        }
                    }
                    _ => flag = r[3] & 64 == 0,
                }
                let flag2 = flag || main != e0;
                if li + 1 < n && (i1.is_some() || i2.is_some()) {
                    touched.insert(pre.leaves[li + 1].0);
                }
                cx.log(format!("update_leaf({:?}) -> ({:?}, {:?}, {:?})", l, main, i1, i2));
                let mut out = main.items();
                out.extend(i1.iter().flat_map(|e| e.items()));
                out.extend(i2.iter().flat_map(|e| e.items()));
                let mut saw = None;
                let (valid, sp) = self.t.update_leaf(l, |e| {
                    saw = Some(e.clone());
                    *e = main;
                    (flag2, i1, i2)
                });
                if saw.as_ref() != Some(&e0) {
                    cx.bad(me, format!("callback saw {:?}, the leaf holds {:?}", saw, e0));
                }
                let post = self.snap(cx)?;
                let mut want = pre.items.clone();
                want.splice(pre.start[li]..pre.start[li + 1], out.clone());
                self.expect_items(cx, me, &post, &want);
                if valid != post.pos.contains_key(&l) || valid == out.is_empty() {
                    cx.bad(me, format!("returned validity {} is wrong", valid));
                }
                self.expect_reported(cx, me, &pre, &post, &sp.arr);
            }
            "update_leaf_by_search" => {
                let p = match r[2] % 4 {
                    0 => total,
                    1 => 0,
                    _ => r[1] as usize % (total + 1),
                };
                let (li, o, found) = self.scan(&pre, p);
                let (l, e0) = pre.leaves[li].clone();
                touched.insert(l);
                let mode = r[3] % 6;
                let n1 = self.elem(r[4]);
                let (mut main, mut i1, mut some) = (e0.clone(), None, true);
                match mode {
                    0 => main.v.iter_mut().for_each(|x| *x = bump(*x)),
                    1 | 2 => {
                        main.v.clear();
                        main.zero = None;
                    }
                    3 | 4 => i1 = Some(n1),
                    _ => some = false,
                }
                cx.log(format!("update_leaf_by_search({}) -> ({:?}, {:?}, {})", p, main, i1, some));
                let mut out = main.items();
                out.extend(i1.iter().flat_map(|e| e.items()));
                let mut saw = None;
                let (c, sp) = self.t.update_leaf_by_search::<LengthFinder>(&p, |e, q| {
                    saw = Some((e.clone(), q));
                    if !some {
                        return None;
                    }
                    let old = Tr::<DIFF, NC, TRY, CAP>::get_elem_cache(e);
                    *e = main;
                    let mut new = Tr::<DIFF, NC, TRY, CAP>::get_elem_cache(e);
                    if let Some(i) = &i1 {
                        new = concat::<NC>(&new, &Tr::<DIFF, NC, TRY, CAP>::get_elem_cache(i));
                    }
                    Some((Tr::<DIFF, NC, TRY, CAP>::sub_cache(&new, &old), i1, None))
                });
                match saw {
                    Some((e, q)) if e == e0 && q.leaf() == l && q.offset() == o && q.found == found => {}
                    s => {
                        let m = format!("callback saw {:?}, expected leaf {:?} offset {} found {}", s, l, o, found);
                        cx.bad(me, m.clone());
                        cx.bad("C06", m);
                    }
                }
                let post = self.snap(cx)?;
                let mut want = pre.items.clone();
                want.splice(pre.start[li]..pre.start[li + 1], out.clone());
                self.expect_items(cx, me, &post, &want);
                if c.is_some() != post.pos.contains_key(&l) || c.is_some() == out.is_empty() {
                    cx.bad(me, format!("returned cursor {:?} has wrong validity", c));
                }
                self.expect_reported(cx, me, &pre, &post, &sp.arr);
            }
            "update_ranges" => {
                let k = 1 + r[1] as usize % 6;
                let mut g = r[2] as u64 | 1;
                let mut args = vec![];
                let mut want = pre.items.clone();
                for _ in 0..k {
                    g = crate::splitmix(g);
                    let li = self.pick_leaf(&pre, g as u32, (g >> 32) as u32);
                    if (g >> 60) % 2 == 0 {
                        self.focus = li;
                    }
                    let len = pre.leaves[li].1.rle_len();
                    if len == 0 {
                        continue;
                    }
                    let a = (g >> 36) as usize % len;
                    let b = a + 1 + (g >> 44) as usize % (len - a);
                    // class-0 elements of this size are fine too: splitting keeps the class
                    args.push((pre.leaves[li].0, a..b, 1u32));
                    for x in &mut want[pre.start[li] + a..pre.start[li] + b] {
                        if let Item::A(_, v) = x {
                            *v = bump_n(*v, 1);
                        }
                    }
                    touched.insert(pre.leaves[li].0);
                }
                cx.log(format!("update_leaves_with_arg_in_ranges({:?})", args));
                let new = self.t.update_leaves_with_arg_in_ranges(args, |e, k| {
                    for x in e.v.iter_mut() {
                        *x = bump_n(*x, *k);
                    }
                });
                let post = self.snap(cx)?;
                self.expect_items(cx, me, &post, &want);
                self.expect_reported(cx, me, &pre, &post, &new);
            }
            "filter_update" => {
                // marks are not part of the cache, so caches stay right
                let m = 1 + r[1] % 5;
                let mut want = vec![];
                for (_, e) in &pre.leaves {
                    for i in e.items() {
                        want.push(match i {
                            Item::A(c, v) => Item::A(c, v ^ MARK),
                            z => z,
                        });
                    }
                }
                cx.log("update_cache_and_elem_with_filter(all)".into());
                let mut visited = 0;
                self.t.update_cache_and_elem_with_filter(
                    |_| true,
                    |e| {
                        visited += 1;
                        e.v.iter_mut().for_each(|x| *x ^= MARK);
                    },
                );
                let _ = m;
                if visited != n {
                    cx.bad("C12", format!("visited {} of {} elements", visited, n));
                }
                let post = self.snap(cx)?;
                self.expect_items(cx, me, &post, &want);
                check_handles = false;
                self.handles.clear();
            }
            "edit_elem" => {
                let li = self.pick_leaf(&pre, r[1], r[2]);
                let l = pre.leaves[li].0;
                touched.insert(l);
                cx.log(format!("get_elem_mut({:?}) + recursive_update_cache", l));
                let mut want = pre.items.clone();
                for x in &mut want[pre.start[li]..pre.start[li + 1]] {
                    if let Item::A(_, v) = x {
                        *v = bump(*v);
                    }
                }
                match self.t.get_elem_mut(l) {
                    Some(e) => {
                        let old = Tr::<DIFF, NC, TRY, CAP>::get_elem_cache(e);
                        e.v.iter_mut().for_each(|x| *x = bump(*x));
                        let new = Tr::<DIFF, NC, TRY, CAP>::get_elem_cache(e);
                        let d = if DIFF && r[3] % 2 == 0 {
                            Some(Tr::<DIFF, NC, TRY, CAP>::sub_cache(&new, &old))
                        } else {
                            None
                        };
                        let use_diff = DIFF && r[3] % 3 != 0;
                        self.t.recursive_update_cache(l.into(), use_diff, if use_diff { d } else { None });
                    }
                    None => cx.bad("C07", "get_elem_mut on a live leaf answered None".into()),
                }
                let post = self.snap(cx)?;
                self.expect_items(cx, me, &post, &want);
            }
            "clear" => {
                cx.log("clear".into());
                self.t.clear();
                let old: Vec<_> = pre.leaves.iter().map(|x| x.0).collect();
                let post = self.snap(cx)?;
                if !post.items.is_empty()
                    || !self.t.is_empty()
                    || self.t.node_len() != 1
                    || *self.t.root_cache() != Sum::default()
                    || self.t.first_leaf().is_some()
                    || self.t.last_leaf().is_some()
                    || self.t.iter().next().is_some()
                {
                    cx.bad(me, "tree is not like new after clear".into());
                }
                for l in old {
                    if self.t.get_elem(l).is_some() {
                        cx.bad(me, "old handle still resolves after clear".into());
                        break;
                    }
                }
                self.forget_handles();
                check_handles = false;
            }
            "clone" => {
                cx.log("clone".into());
                let c = self.t.clone();
                let s2 = Self::snap_of(&c, cx)?;
                if s2.leaves != pre.leaves || c.root_cache() != self.t.root_cache() || c.node_len() != self.t.node_len() {
                    cx.bad(me, "clone differs from the original".into());
                }
                let keep = if r[1] % 2 == 0 {
                    c
                } else {
                    std::mem::replace(&mut self.t, c)
                };
                let rc = keep.root_cache().clone();
                let nl = keep.node_len();
                self.shadow = Some((keep, pre.leaves.clone(), rc, nl));
            }
            "grab" => {
                for k in 0..4u32 {
                    let li = self.pick_leaf(&pre, r[1].wrapping_mul(k + 1), r[2] >> k);
                    self.handles.push(pre.leaves[li].clone());
                }
                if self.handles.len() > 120 {
                    self.handles.drain(..40);
                }
            }
            "check_nav" => self.check_nav(cx, &pre, r),
            "check_query" => self.check_query(cx, &pre, r, total),
            "check_range" => self.check_range(cx, &pre, r),
            _ => unreachable!(),
        }
        if matches!(name, "check_nav" | "check_query" | "check_range" | "grab") {
            check_handles = true;
        }
        if check_handles && name != "filter_update" {
            let dump_post: HashSet<LeafIndex> = if prop == "C07" || prop == "ALL" {
                let s = self.snap(cx)?;
                // every untouched leaf still names the same element
                for (l, e) in &pre.leaves {
                    if !touched.contains(l) {
                        match self.t.get_elem(*l) {
                            Some(x) if x == e => {
                                if !s.pos.contains_key(l) {
                                    cx.bad("C07", format!("untouched {:?} left the tree during {}", l, name));
                                    break;
                                }
                            }
                            x => {
                                cx.bad("C07", format!("untouched {:?} held {:?}, now {:?} after {}", l, e, x, name));
                                break;
                            }
                        }
                    } else if !s.pos.contains_key(l) {
                        self.dead.push(*l);
                    }
                }
                s.pos.keys().copied().collect()
            } else {
                HashSet::new()
            };
            let mut keep = vec![];
            for (l, e) in std::mem::take(&mut self.handles) {
                if touched.contains(&l) {
                    continue;
                }
                match self.t.get_elem(l) {
                    Some(x) if *x == e => keep.push((l, e)),
                    x => cx.bad("C07", format!("handle {:?} held {:?}, now {:?} after {}", l, e, x, name)),
                }
            }
            self.handles = keep;
            if self.dead.len() > 200 {
                self.dead.drain(..50);
            }
            for l in &self.dead {
                if self.t.get_elem(*l).is_some() && !dump_post.is_empty() && !touched.contains(l) {
                    cx.bad("C07", format!("removed handle {:?} resolves again after {}", l, name));
                    break;
                }
            }
        }
        if let Some((s, want, rc, nl)) = &self.shadow {
            let got = Self::snap_of(s, cx)?;
            if got.leaves != *want || s.root_cache() != rc || s.node_len() != *nl {
                cx.bad("C15", format!("{} on one copy changed the other", name));
            }
        }
        Ok(())
    }

    fn check_nav(&mut self, cx: &mut Ctx, s: &Snap<TRY, CAP>, r: &Rec) {
        let p = "C10";
        let n = s.leaves.len();
        let t = &self.t;
        let it: Vec<&El<TRY, CAP>> = t.iter().take(n + 2).collect();
        if it.len() != n || it.iter().zip(&s.leaves).any(|(a, b)| **a != b.1) {
            cx.bad(p, format!("iter() yields {} elements, not the {} in order", it.len(), n));
        }
        let (f, l) = (t.first_leaf(), t.last_leaf());
        if f != s.leaves.first().map(|x| x.0) || l != s.leaves.last().map(|x| x.0) {
            cx.bad(p, format!("first/last leaf {:?} {:?}", f, l));
        }
        let sc = s.leaves.first().map(|x| Cursor { leaf: x.0, offset: 0 });
        let ec = s.leaves.last().map(|x| Cursor { leaf: x.0, offset: x.1.rle_len() });
        if t.start_cursor() != sc || t.end_cursor() != ec {
            cx.bad(p, "start_cursor/end_cursor".into());
        }
        if t.is_empty() != (n == 0) {
            cx.bad(p, "is_empty".into());
        }
        if n == 0 {
            return;
        }
        if t.depth() != s.height {
            cx.bad(p, format!("depth() {} but height {}", t.depth(), s.height));
        }
        let lo = if n > 40 { r[1] as usize % (n - 30) } else { 0 };
        let hi = (lo + 30).min(n);
        for i in lo..hi {
            let (leaf, e) = &s.leaves[i];
            let len = e.rle_len();
            let c0 = Cursor { leaf: *leaf, offset: 0 };
            let cl = Cursor { leaf: *leaf, offset: len };
            let nx = s.leaves.get(i + 1).map(|x| Cursor { leaf: x.0, offset: 0 });
            let pv = if i > 0 { Some(Cursor { leaf: s.leaves[i - 1].0, offset: 0 }) } else { None };
            if t.next_elem(c0) != nx || t.next_elem(cl) != nx {
                cx.bad(p, format!("next_elem of leaf {} of {}", i, n));
            }
            if t.prev_elem(c0) != pv || t.prev_elem(cl) != pv {
                cx.bad(p, format!("prev_elem of leaf {} of {}", i, n));
            }
            // cursor normalisation
            for o in 0..=len {
                let c = Cursor { leaf: *leaf, offset: o };
                let right = if o == 0 || o < len { Some(c) } else { nx };
                if t.prefer_right(c) != right {
                    cx.bad(p, format!("prefer_right({:?}) = {:?}", c, t.prefer_right(c)));
                }
                let left = if o != 0 {
                    Some(c)
                } else if i == 0 {
                    None
                } else {
                    Some(Cursor { leaf: s.leaves[i - 1].0, offset: s.leaves[i - 1].1.rle_len() })
                };
                if t.prefer_left(c) != left {
                    cx.bad(p, format!("prefer_left({:?}) = {:?}", c, t.prefer_left(c)));
                }
                // one step of content forward
                let base: usize = s.leaves[..i].iter().map(|x| x.1.rle_len()).sum::<usize>() + o;
                let want = {
                    let mut left = base + 1;
                    let mut ans = None;
                    for (l2, e2) in s.leaves.iter() {
                        if left < e2.rle_len() {
                            ans = Some(Cursor { leaf: *l2, offset: left });
                            break;
                        }
                        left -= e2.rle_len();
                    }
                    ans
                };
                let got = t.shift_path_by_one_offset(c);
                if got != want {
                    cx.bad(p, format!("shift_path_by_one_offset({:?}) = {:?}, expected {:?}", c, got, want));
                }
            }
        }
        let mut g = r[2] as u64 | 1;
        for _ in 0..40 {
            g = crate::splitmix(g);
            let a = self.pick_leaf(s, g as u32, (g >> 32) as u32);
            let b = if (g >> 61) == 0 { a } else { self.pick_leaf(s, (g >> 11) as u32, (g >> 43) as u32) };
            let (oa, ob) = (
                (g >> 50) as usize % (s.leaves[a].1.rle_len() + 1),
                (g >> 55) as usize % (s.leaves[b].1.rle_len() + 1),
            );
            let want = (a, oa).cmp(&(b, ob));
            let got = t.compare_pos(
                Cursor { leaf: s.leaves[a].0, offset: oa },
                Cursor { leaf: s.leaves[b].0, offset: ob },
            );
            if got != want {
                cx.bad(p, format!("compare_pos of leaf {} and {}: {:?}", a, b, got));
            }
            let _: Ordering = want;
        }
    }

    fn check_query(&mut self, cx: &mut Ctx, s: &Snap<TRY, CAP>, r: &Rec, total: usize) {
        let p = "C06";
        if s.leaves.is_empty() {
            if self.t.query::<LengthFinder>(&(r[1] as usize % 3)).is_some() {
                cx.bad(p, "query on an empty tree found something".into());
            }
            if self.t.range::<LengthFinder>(0..1).is_some() {
                cx.bad(p, "range on an empty tree found something".into());
            }
            return;
        }
        let mut ps: Vec<usize> = vec![0, total, total + 1, total + 7, usize::MAX / 4];
        let lo = if total > 60 { r[1] as usize % (total - 50) } else { 0 };
        ps.extend(lo..(lo + 50).min(total));
        for q in ps {
            let (li, off, found) = self.scan(s, q);
            let want = QueryResult {
                cursor: Cursor { leaf: s.leaves[li].0, offset: off },
                found,
            };
            let got = self.t.query::<LengthFinder>(&q);
            if got != Some(want) {
                cx.bad(p, format!("query({}) = {:?}, expected {:?}", q, got, want));
            }
            if let Some(g) = got {
                if g.elem(&self.t) != Some(&s.leaves[li].1) {
                    cx.bad(p, "QueryResult::elem".into());
                }
            }
            let (got2, f) = self.t.query_with_finder_return::<LengthFinder>(&q);
            if got2 != Some(want) {
                cx.bad(p, format!("query_with_finder_return({}) = {:?}", q, got2));
            }
            // the finder reports the slot within the bottom node
            let mut k = li;
            while !s.edge[k].0 {
                k -= 1;
            }
            if f.slot as usize != li - k {
                cx.bad(p, format!("finder slot {} but the leaf is child {}", f.slot, li - k));
            }
        }
        let (a, b) = (r[1] as usize % (total + 1), r[2] as usize % (total + 1));
        let got = self.t.range::<LengthFinder>(a.min(b)..a.max(b));
        let q = |p: usize| {
            let (li, offset, found) = self.scan(s, p);
            QueryResult { cursor: Cursor { leaf: s.leaves[li].0, offset }, found }
        };
        if got != Some(q(a.min(b))..q(a.max(b))) {
            cx.bad(p, format!("range({}..{}) = {:?}", a.min(b), a.max(b), got));
        }
    }

    fn check_range(&mut self, cx: &mut Ctx, s: &Snap<TRY, CAP>, r: &Rec) {
        let p = "C11";
        let n = s.leaves.len();
        let all: Vec<_> = self
            .t
            .iter_range(..)
            .take(n + 2)
            .map(|x| (x.cursor().leaf, x.start, x.end))
            .collect();
        let want: Vec<_> = (0..n)
            .map(|i| {
                (
                    s.leaves[i].0,
                    if i == 0 { Some(0) } else { None },
                    if i + 1 == n { Some(s.leaves[i].1.rle_len()) } else { None },
                )
            })
            .collect();
        if all != want {
            cx.bad(p, format!("iter_range(..) yields {:?}", &all[..all.len().min(6)]));
        }
        let mut g = r[1] as u64 | 1;
        for round in 0..6 {
            g = crate::splitmix(g);
            if n == 0 {
                break;
            }
            let (mut c1, mut a) = self.pick_cursor(s, g as u32, (g >> 32) as u32);
            g = crate::splitmix(g);
            let (mut c2, mut b) = self.pick_cursor(s, g as u32, (g >> 32) as u32);
            if (s.pos[&c1.leaf], c1.offset) > (s.pos[&c2.leaf], c2.offset) {
                std::mem::swap(&mut c1, &mut c2);
                std::mem::swap(&mut a, &mut b);
            }
            let (i, j) = (s.pos[&c1.leaf], s.pos[&c2.leaf]);
            let incl = round % 2 == 0;
            let got: Vec<_> = if incl {
                self.t.iter_range(c1..=c2).take(n + 2).map(|x| (x.cursor().leaf, x.cursor().offset, x.elem.clone(), x.start, x.end)).collect()
            } else {
                self.t.iter_range(c1..c2).take(n + 2).map(|x| (x.cursor().leaf, x.cursor().offset, x.elem.clone(), x.start, x.end)).collect()
            };
            let mut want = vec![];
            for k in i..=j {
                if k == j && c2.offset == 0 && !incl {
                    continue;
                }
                want.push((
                    s.leaves[k].0,
                    0,
                    s.leaves[k].1.clone(),
                    if k == i { Some(c1.offset) } else { None },
                    if k == j { Some(c2.offset) } else { None },
                ));
            }
            if got != want {
                cx.bad(
                    p,
                    format!("iter_range({:?}..{}{:?}) yields {} slices, expected {}", c1, if incl { "=" } else { "" }, c2, got.len(), want.len()),
                );
            }
            // content before a cursor
            let mut sum = Sum::default();
            let mut last = None;
            let mut order_ok = true;
            let mut visited = 0;
            self.t.visit_previous_caches(c1, |x| match x {
                PreviousCache::NodeCache(c) => {
                    order_ok &= last.is_none();
                    visited += 1;
                    sum = concat::<NC>(&sum, c);
                }
                PreviousCache::PrevSiblingElem(e) => {
                    sum = concat::<NC>(&sum, &Tr::<DIFF, NC, TRY, CAP>::get_elem_cache(e));
                }
                PreviousCache::ThisElemAndOffset { elem, offset } => {
                    order_ok &= last.is_none();
                    last = Some((elem.clone(), offset));
                }
            });
            let mut want = Sum::default();
            for k in 0..i {
                want = concat::<NC>(&want, &Tr::<DIFF, NC, TRY, CAP>::get_elem_cache(&s.leaves[k].1));
            }
            if sum != want || !order_ok || last != Some((s.leaves[i].1.clone(), c1.offset)) {
                cx.bad(p, format!("visit_previous_caches({:?}) totals {:?}, expected {:?}", c1, sum, want));
            }
            if visited > s.height * 11 {
                cx.bad(p, format!("visit_previous_caches visited {} caches in a tree of height {}", visited, s.height));
            }
        }
        // filter: drill into subtrees whose weight satisfies a predicate
        let m = 2 + (r[2] % 5) as i64;
        let keep = |c: &Sum| m == 6 || c.w % m != 0;
        let got: Vec<(i64, El<TRY, CAP>)> = self
            .t
            .iter_with_filter(|c: &Sum| (keep(c), c.len))
            .map(|(a, e)| (a, e.clone()))
            .take(n + 2)
            .collect();
        let d = self.t.verif_dump();
        let nodes: HashMap<_, _> = d.nodes.iter().map(|n| (n.index, n)).collect();
        let mut want = vec![];
        fn go<const DIFF: bool, const NC: bool, const TRY: bool, const CAP: usize, I: std::hash::Hash + Eq>(
            t: &BTree<Tr<DIFF, NC, TRY, CAP>>,
            nodes: &HashMap<I, &generic_btree::verif::VerifNode<Sum>>,
            a: ArenaIndex,
            r0: i64,
            keep: &dyn Fn(&Sum) -> bool,
            conv: &dyn Fn(ArenaIndex) -> I,
            out: &mut Vec<(i64, El<TRY, CAP>)>,
        ) {
            let mut acc = r0;
            for (c, s) in &nodes[&conv(a)].children {
                if keep(s) {
                    match c {
                        ArenaIndex::Leaf(l) => out.push((acc, t.get_elem((*l).into()).unwrap().clone())),
                        x => go(t, nodes, *x, acc, keep, conv, out),
                    }
                }
                acc += s.len;
            }
        }
        let conv = |a: ArenaIndex| match a {
            ArenaIndex::Leaf(i) => i,
            ArenaIndex::Internal(i) => i,
        };
        go(&self.t, &nodes, d.root, 0, &keep, &conv, &mut want);
        if got != want {
            cx.bad(p, format!("iter_with_filter yields {} elements, expected {}", got.len(), want.len()));
        }
    }

    pub fn finish(&mut self, cx: &mut Ctx) -> Result<(), ()> {
        let s = self.snap(cx)?;
        let total: usize = s.leaves.iter().map(|l| l.1.rle_len()).sum();
        let r = [7, 11, 13, 17, 19, 23];
        cx.op("check_nav");
        self.check_nav(cx, &s, &r);
        cx.op("check_query");
        self.check_query(cx, &s, &r, total);
        cx.op("check_range");
        self.check_range(cx, &s, &r);
        cx.op("check");
        if !cx.tainted() {
            self.t.check();
        }
        Ok(())
    }
}

fn bump(x: Atom) -> Atom {
    bump_n(x, 1)
}
fn bump_n(x: Atom, k: u32) -> Atom {
    let t = ((x >> 24) + k) & 15;
    (x & !(15 << 24)) | (t << 24)
}

pub fn run<const DIFF: bool, const NC: bool, const TRY: bool, const CAP: usize>(
    cx: &mut Ctx,
    recs: &[Rec],
    prop: &str,
) -> Result<(), Viol> {
    let mut st: St<DIFF, NC, TRY, CAP> = St::new();
    for (i, r) in recs.iter().enumerate() {
        cx.at(i);
        let was = cx.seen_shape();
        if st.step(cx, r, prop).is_err() {
            return cx.verdict();
        }
        let _ = was;
        cx.verdict()?;
    }
    cx.at(recs.len());
    let _ = st.finish(cx);
    cx.verdict()
}
