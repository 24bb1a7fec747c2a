//! OrdTreeMap / OrdTreeSet against BTreeMap / BTreeSet.
use crate::{Ctx, Rec, Viol};
use generic_btree::{ArenaIndex, OrdTreeMap, OrdTreeSet};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub fn run(cx: &mut Ctx, recs: &[Rec]) -> Result<(), Viol> {
    let mut t: OrdTreeMap<i64, u32> = OrdTreeMap::new();
    let mut set: OrdTreeSet<i64> = OrdTreeSet::new();
    let mut m: BTreeMap<i64, u32> = BTreeMap::new();
    let mut ms: BTreeSet<i64> = BTreeSet::new();
    let dom = match recs.first().map(|r| r[5] % 5) {
        Some(0) => 4,
        Some(1) => 30,
        Some(2) => 400,
        Some(3) => 3000,
        _ => i64::MAX,
    };
    let mut up = 0i64;
    let mut down = 0i64;
    for (i, r) in recs.iter().enumerate() {
        cx.at(i);
        cx.op("ord");
        let key = |x: u32, y: u32| -> i64 {
            if dom == i64::MAX {
                ((x as i64) << 20) ^ y as i64
            } else {
                x as i64 % dom
            }
        };
        let present = |x: u32| -> Option<i64> {
            if m.is_empty() {
                return None;
            }
            match x % 4 {
                0 => m.keys().next().copied(),
                1 => m.keys().next_back().copied(),
                _ => m.keys().nth((x >> 2) as usize % m.len()).copied(),
            }
        };
        let op = r[0] % 24;
        match op {
            0..=9 => {
                let k = key(r[1], r[2]);
                ins(cx, &mut t, &mut set, &mut m, &mut ms, k, r[3]);
            }
            10 => {
                // a run of ascending or descending keys
                let n = 1 + r[1] % 60;
                for _ in 0..n {
                    let k = if r[2] % 2 == 0 {
                        up += 1;
                        if dom == i64::MAX { (1 << 60) + up } else { up % dom }
                    } else {
                        down -= 1;
                        down
                    };
                    ins(cx, &mut t, &mut set, &mut m, &mut ms, k, r[3]);
                }
            }
            11 => {
                if let Some(k) = present(r[1]) {
                    ins(cx, &mut t, &mut set, &mut m, &mut ms, k, r[3]);
                }
            }
            12..=17 => {
                if let Some(k) = present(r[1]) {
                    del(cx, &mut t, &mut set, &mut m, &mut ms, k);
                }
            }
            18 => {
                let n = r[1] % 80;
                for j in 0..n {
                    if let Some(k) = m.keys().nth(r[2] as usize % m.len().max(1)).copied() {
                        del(cx, &mut t, &mut set, &mut m, &mut ms, k);
                    } else {
                        break;
                    }
                    if j % 10 == 0 {
                        shape(cx, &t);
                    }
                }
            }
            19 => {
                let n = if r[1] % 5 == 0 { m.len() } else { 0 };
                for _ in 0..n {
                    let k = if r[2] % 2 == 0 { m.keys().next() } else { m.keys().next_back() }.copied();
                    if let Some(k) = k {
                        del(cx, &mut t, &mut set, &mut m, &mut ms, k);
                    }
                }
            }
            20 => {
                let k = match (r[2] % 3, m.keys().next(), m.keys().next_back()) {
                    (0, Some(k), _) => k - 1,
                    (1, _, Some(k)) => k + 1,
                    _ => key(r[1], r[2]),
                };
                del(cx, &mut t, &mut set, &mut m, &mut ms, k);
            }
            _ => {
                let k = key(r[1], r[2]);
                del(cx, &mut t, &mut set, &mut m, &mut ms, k);
            }
        }
        if t.len() != m.len() || t.is_empty() != m.is_empty() || set.len() != ms.len() || set.is_empty() != ms.is_empty() {
            cx.bad("C02", format!("len() {} / {}, expected {} / {}", t.len(), set.len(), m.len(), ms.len()));
        }
        if !t.iter().take(m.len() + 2).map(|(k, v)| (k, v)).eq(m.iter()) {
            cx.bad("C02", "map iteration differs from the sorted bindings".into());
        }
        if !t.iter_key().take(m.len() + 2).eq(m.keys()) {
            cx.bad("C02", "iter_key differs from the sorted keys".into());
        }
        if !set.iter().take(ms.len() + 2).eq(ms.iter()) {
            cx.bad("C02", "set iteration differs from the sorted keys".into());
        }
        shape(cx, &t);
        cx.verdict()?;
    }
    Ok(())
}

fn ins(
    cx: &mut Ctx,
    t: &mut OrdTreeMap<i64, u32>,
    s: &mut OrdTreeSet<i64>,
    m: &mut BTreeMap<i64, u32>,
    ms: &mut BTreeSet<i64>,
    k: i64,
    v: u32,
) {
    cx.log(format!("insert({}, {})", k, v));
    t.insert(k, v);
    m.insert(k, v);
    s.insert(k);
    ms.insert(k);
}
fn del(
    cx: &mut Ctx,
    t: &mut OrdTreeMap<i64, u32>,
    s: &mut OrdTreeSet<i64>,
    m: &mut BTreeMap<i64, u32>,
    ms: &mut BTreeSet<i64>,
    k: i64,
) {
    cx.log(format!("delete({})", k));
    let a = t.delete(&k);
    let b = m.remove(&k).map(|v| (k, v));
    if a != b {
        cx.bad("C02", format!("delete({}) returned {:?}, expected {:?}", k, a, b));
    }
    let a = s.delete(&k);
    let b = ms.remove(&k);
    if a != b {
        cx.bad("C02", format!("set delete({}) returned {:?}, expected {:?}", k, a, b));
    }
}

fn shape(cx: &mut Ctx, t: &OrdTreeMap<i64, u32>) {
    let d = t.verif_dump();
    let nodes: HashMap<_, _> = d.nodes.iter().map(|n| (n.index, n)).collect();
    let lp: HashMap<_, _> = d.leaves.iter().map(|l| (l.index, l.parent)).collect();
    let mut seen = HashSet::new();
    let mut leaves = HashSet::new();
    let mut depth = None;
    let mut stack = vec![(d.root, 0usize)];
    let mut order = vec![];
    while let Some((a, dep)) = stack.pop() {
        let ArenaIndex::Internal(i) = a else { return };
        let Some(n) = nodes.get(&i) else {
            cx.bad("C04", "map: dead child".into());
            return;
        };
        if !seen.insert(i) {
            cx.bad("C04", "map: node reachable twice".into());
            return;
        }
        if n.children.len() >= d.capacity || (dep > 0 && n.children.is_empty()) {
            cx.bad("C04", format!("map: node with {} children", n.children.len()));
        }
        order.push(i);
        for (k, (c, cache)) in n.children.iter().enumerate() {
            match c {
                ArenaIndex::Leaf(l) => {
                    if lp.get(l) != Some(&i) || !leaves.insert(*l) {
                        cx.bad("C04", "map: leaf parent link".into());
                        return;
                    }
                    if *depth.get_or_insert(dep) != dep {
                        cx.bad("C04", "map: unequal depth".into());
                    }
                    let key = t.verif_leaf(*l).0;
                    if *cache != Some((key, key)) {
                        cx.bad("C05", format!("map: key {} cached as {:?}", key, cache));
                    }
                }
                ArenaIndex::Internal(x) => {
                    if let Some(cn) = nodes.get(x) {
                        if cn.parent != Some(a) || cn.parent_slot as usize != k {
                            cx.bad("C04", "map: node parent link".into());
                        }
                    }
                    stack.push((*c, dep + 1));
                }
            }
        }
    }
    if seen.len() != d.nodes.len() || leaves.len() != d.leaves.len() {
        cx.bad("C04", "map: unreachable nodes left behind".into());
    }
    let mut sums: HashMap<_, (i64, i64)> = HashMap::new();
    for i in order.iter().rev() {
        let ch = &nodes[i].children;
        let mut span: Option<(i64, i64)> = None;
        for (c, cache) in ch {
            let truth = match c {
                ArenaIndex::Leaf(l) => {
                    let k = t.verif_leaf(*l).0;
                    (k, k)
                }
                ArenaIndex::Internal(x) => match sums.get(x) {
                    Some(s) => *s,
                    None => return,
                },
            };
            if *cache != Some(truth) {
                cx.bad("C05", format!("map: cache {:?} for a subtree spanning {:?}", cache, truth));
            }
            span = Some(match span {
                None => truth,
                Some((a, _)) => (a, truth.1),
            });
        }
        if let Some(s) = span {
            sums.insert(*i, s);
        }
    }
    if let ArenaIndex::Internal(i) = d.root {
        // of an empty map the root summary is never consulted
        if let Some(s) = sums.get(&i) {
            if d.root_cache != Some(*s) {
                cx.bad("C05", format!("map: root cache {:?}, keys span {:?}", d.root_cache, s));
            }
        }
    }
}
