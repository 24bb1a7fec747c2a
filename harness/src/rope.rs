//! Rope against String.
use crate::{Ctx, Rec, Viol};
use generic_btree::{ArenaIndex, Rope};
use std::collections::{HashMap, HashSet};

fn text(r: u32, n: usize) -> String {
    let pat = ["abcdefghij", "xyz", "é日本🎉", "0123456789_", "ü"][(r % 5) as usize];
    let mut s = String::new();
    let mut it = pat.chars().cycle();
    for _ in 0..(r >> 3) % 3 {
        it.next();
    }
    while s.len() < n {
        s.push(it.next().unwrap());
    }
    s
}

fn floor(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

pub fn run(cx: &mut Ctx, recs: &[Rec], _prop: &str) -> Result<(), Viol> {
    let mut rope = Rope::new();
    let mut m = String::new();
    let mut focus = 0usize;
    for (i, r) in recs.iter().enumerate() {
        cx.at(i);
        cx.op("rope");
        let big = m.len() > 60_000;
        let near = |x: u32, f: usize, len: usize| -> usize {
            match x % 8 {
                0 => 0,
                1 => len,
                2..=4 => (f + (x >> 3) as usize % 40).saturating_sub(20).min(len),
                5 => f.min(len),
                _ => (x >> 3) as usize % (len + 1),
            }
        };
        let op = r[0] % 32;
        match op {
            0..=17 if !big => {
                let at = floor(&m, near(r[1], focus, m.len()));
                let n = match r[2] % 16 {
                    0 => 0,
                    1..=8 => 1 + (r[2] >> 4) as usize % 4,
                    9 => 120 + (r[2] >> 4) as usize % 16,
                    10 => 250 + (r[2] >> 4) as usize % 12,
                    11 => (r[2] >> 4) as usize % 130,
                    12 => (r[2] >> 4) as usize % 60,
                    13 if (r[2] >> 20) % 6 == 0 => (r[2] >> 4) as usize % 6000,
                    _ => 1,
                };
                let s = text(r[3], n);
                cx.log(format!("insert({}, {:?})", at, s));
                rope.insert(at, &s);
                m.insert_str(at, &s);
                focus = at + s.len();
                cx.count("rope_insert");
            }
            31 if r[1] % 6 == 0 => {
                cx.log("clear()".into());
                rope.clear();
                m.clear();
                cx.count("rope_clear");
                if r[2] % 2 == 0 {
                    focus = 0;
                }
            }
            _ => {
                let a = near(r[1], focus, m.len());
                let n = match r[2] % 12 {
                    0 => 0,
                    1..=6 => 1,
                    7 | 8 => 1 + (r[2] >> 4) as usize % 12,
                    9 => 1 + (r[2] >> 4) as usize % 300,
                    10 => (r[2] >> 4) as usize % (m.len() + 1),
                    _ => m.len(),
                };
                let a = floor(&m, a);
                let mut b = floor(&m, (a + n).min(m.len()));
                if n == 1 && b == a && a < m.len() {
                    b = a + m[a..].chars().next().unwrap().len_utf8();
                }
                cx.log(format!("delete_range({}..{})", a, b));
                match r[3] % 4 {
                    0 if b == m.len() => rope.delete_range(a..),
                    1 if a == 0 => rope.delete_range(..b),
                    2 if b > a => rope.delete_range(a..=b - 1),
                    3 if b == m.len() => rope.delete_range(a..b + 5),
                    _ => rope.delete_range(a..b),
                }
                m.replace_range(a..b, "");
                focus = a;
                cx.count("rope_delete");
            }
        }
        if rope.len() != m.len() || rope.is_empty() != m.is_empty() {
            cx.bad("C01", format!("len() is {}, the text has {}", rope.len(), m.len()));
            cx.bad("C05", format!("Rope::len() is {}, the text has {}", rope.len(), m.len()));
        }
        if m.len() < 2000 || i % 7 == 0 || i + 1 == recs.len() {
            let s = rope.to_string();
            if s != m {
                cx.bad("C01", format!("text is {:?}, expected {:?}", clip(&s), clip(&m)));
                if op == 31 {
                    cx.bad("C15", "Rope is not empty after clear".into());
                }
            }
        }
        if i % 3 == 0 || i + 1 == recs.len() {
            shape(cx, &rope);
        }
        cx.verdict()?;
    }
    Ok(())
}

fn clip(s: &str) -> String {
    if s.len() < 200 {
        s.into()
    } else {
        format!("{}...", &s[..floor(s, 200)])
    }
}

fn shape(cx: &mut Ctx, r: &Rope) {
    let d = r.verif_dump();
    let nodes: HashMap<_, _> = d.nodes.iter().map(|n| (n.index, n)).collect();
    let lp: HashMap<_, _> = d.leaves.iter().map(|l| (l.index, l.parent)).collect();
    let mut seen = HashSet::new();
    let mut leaves = HashSet::new();
    let mut depth = None;
    let mut stack = vec![(d.root, 0usize)];
    let mut sums: HashMap<_, isize> = HashMap::new();
    let mut order = vec![];
    while let Some((a, dep)) = stack.pop() {
        let ArenaIndex::Internal(i) = a else { return };
        let Some(n) = nodes.get(&i) else {
            cx.bad("C04", "rope: dead child".into());
            return;
        };
        if !seen.insert(i) {
            cx.bad("C04", "rope: node reachable twice".into());
            return;
        }
        if n.children.len() >= d.capacity || (dep > 0 && n.children.is_empty()) {
            cx.bad("C04", format!("rope: node with {} children", n.children.len()));
        }
        order.push(i);
        for (k, (c, cache)) in n.children.iter().enumerate() {
            match c {
                ArenaIndex::Leaf(l) => {
                    if lp.get(l) != Some(&i) || !leaves.insert(*l) {
                        cx.bad("C04", "rope: leaf parent link".into());
                        return;
                    }
                    if *depth.get_or_insert(dep) != dep {
                        cx.bad("C04", "rope: unequal depth".into());
                    }
                    if r.verif_leaf_len(*l) as isize != *cache {
                        cx.bad("C05", format!("rope: chunk of {} bytes cached as {}", r.verif_leaf_len(*l), cache));
                    }
                }
                ArenaIndex::Internal(x) => {
                    if let Some(cn) = nodes.get(x) {
                        if cn.parent != Some(a) || cn.parent_slot as usize != k {
                            cx.bad("C04", "rope: node parent link".into());
                        }
                    }
                    stack.push((*c, dep + 1));
                }
            }
        }
    }
    if seen.len() != d.nodes.len() || leaves.len() != d.leaves.len() {
        cx.bad("C04", "rope: unreachable nodes left behind".into());
    }
    for i in order.iter().rev() {
        let mut t = 0;
        for (c, cache) in &nodes[i].children {
            let truth = match c {
                ArenaIndex::Leaf(l) => r.verif_leaf_len(*l) as isize,
                ArenaIndex::Internal(x) => sums.get(x).copied().unwrap_or(-1),
            };
            if truth != *cache {
                cx.bad("C05", format!("rope: cache {} for a subtree of {} bytes", cache, truth));
            }
            t += truth;
        }
        sums.insert(*i, t);
    }
    if let ArenaIndex::Internal(i) = d.root {
        if sums[&i] != d.root_cache {
            cx.bad("C05", format!("rope: root cache {} for {} bytes", d.root_cache, sums[&i]));
        }
    }
}
