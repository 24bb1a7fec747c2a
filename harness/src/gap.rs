//! The chunk buffer against Vec<u8>, and the rle traits' provided methods against slices.
use crate::{Ctx, Rec, Viol};
use generic_btree::rle::{HasLength, Sliceable};
use generic_btree::verif_gap::{Gap, CAP};
use std::ops::{Bound, Range, RangeBounds};

#[derive(Clone, Debug, PartialEq)]
struct V(Vec<u8>);
impl HasLength for V {
    fn rle_len(&self) -> usize {
        self.0.len()
    }
}
impl Sliceable for V {
    fn _slice(&self, r: Range<usize>) -> Self {
        V(self.0[r].to_vec())
    }
}

#[derive(Clone, Copy, Debug)]
struct R(Bound<usize>, Bound<usize>);
impl RangeBounds<usize> for R {
    fn start_bound(&self) -> Bound<&usize> {
        self.0.as_ref()
    }
    fn end_bound(&self) -> Bound<&usize> {
        self.1.as_ref()
    }
}

/// a range meaning a..b, written with one of the possible kinds of bound
fn bounds(a: usize, b: usize, len: usize, k: u32) -> R {
    let s = match k % 3 {
        0 if a == 0 => Bound::Unbounded,
        1 if a > 0 => Bound::Excluded(a - 1),
        _ => Bound::Included(a),
    };
    let e = match (k / 3) % 3 {
        0 if b == len => Bound::Unbounded,
        1 if b > 0 => Bound::Included(b - 1),
        _ => Bound::Excluded(b),
    };
    R(s, e)
}

pub fn run(cx: &mut Ctx, recs: &[Rec]) -> Result<(), Viol> {
    let p = "C14";
    let mut g = Gap::new();
    let mut m: Vec<u8> = vec![];
    let mut ctr = 0u8;
    for (i, r) in recs.iter().enumerate() {
        cx.at(i);
        cx.op("gap");
        let mut bytes = |n: usize| -> Vec<u8> {
            (0..n)
                .map(|_| {
                    ctr = ctr.wrapping_add(1);
                    ctr
                })
                .collect()
        };
        let size = |x: u32| -> usize {
            match x % 8 {
                0 => 0,
                1 => CAP,
                2 => (x >> 3) as usize % (CAP + 2),
                3 => (CAP - m.len()) + (x >> 3) as usize % 2,
                _ => (x >> 3) as usize % 9,
            }
        };
        let at = |x: u32, n: usize| -> usize {
            match x % 5 {
                0 => 0,
                1 => n,
                _ => (x >> 3) as usize % (n + 1),
            }
        };
        let other = |b: &[u8], shift: u32| -> Gap {
            let mut o = Gap::new();
            o.push_bytes(b).unwrap();
            o.shift_at(shift as usize % (b.len() + 1));
            o
        };
        match r[0] % 17 {
            0..=2 => {
                let (k, b) = (at(r[1], m.len()), bytes(size(r[2])));
                cx.log(format!("insert_bytes({}, {} bytes)", k, b.len()));
                let fits = m.len() + b.len() <= CAP;
                if g.insert_bytes(k, &b).is_ok() != fits {
                    cx.bad(p, format!("insert_bytes of {} into {} reported fit wrongly", b.len(), m.len()));
                }
                if fits {
                    m.splice(k..k, b);
                }
            }
            3 => {
                let (k, b, c) = (at(r[1], m.len()), bytes(size(r[2])), bytes(size(r[3])));
                cx.log(format!("insert_bytes_pair({}, {}+{} bytes)", k, b.len(), c.len()));
                let fits = m.len() + b.len() + c.len() <= CAP;
                if g.insert_bytes_pair(k, (&b, &c)).is_ok() != fits {
                    cx.bad(p, "insert_bytes_pair reported fit wrongly".into());
                }
                if fits {
                    m.splice(k..k, [b, c].concat());
                }
            }
            4 => {
                let k = at(r[1], m.len());
                cx.log(format!("shift_at({})", k));
                g.shift_at(k);
            }
            5..=7 => {
                let (a, b) = (at(r[1], m.len()), at(r[2], m.len()));
                let (a, b) = (a.min(b), a.max(b));
                let k = bounds(a, b, m.len(), r[3]);
                cx.log(format!("delete({:?})", k));
                g.delete(k);
                m.drain(a..b);
            }
            8 => {
                let (a, b) = (at(r[1], m.len()), at(r[2], m.len()));
                let (a, b) = (a.min(b), a.max(b));
                cx.log(format!("slice({}..{})", a, b));
                let s = g.slice(a..b);
                if s.bytes() != m[a..b] {
                    cx.bad(p, format!("slice({}..{}) of {} bytes holds {:?}", a, b, m.len(), s.bytes()));
                }
            }
            9 => {
                let (a, b) = (at(r[1], m.len()), at(r[2], m.len()));
                let (a, b) = (a.min(b), a.max(b));
                cx.log(format!("slice_({}..{})", a, b));
                g.slice_in_place(a..b);
                m = m[a..b].to_vec();
            }
            10 => {
                let k = at(r[1], m.len());
                cx.log(format!("split({})", k));
                let o = g.split(k);
                let t = m.split_off(k);
                if o.bytes() != t {
                    cx.bad(p, format!("split({}) returned {:?}, expected {:?}", k, o.bytes(), t));
                }
                if r[2] % 2 == 0 {
                    if g.bytes() != m {
                        cx.bad(p, "split left the wrong part".into());
                    }
                    g = o;
                    m = t;
                }
            }
            11 | 12 => {
                let b = bytes(size(r[1]).min(CAP));
                let o = other(&b, r[2]);
                let fits = m.len() + b.len() <= CAP;
                cx.log(format!("merge with {} bytes, right {}", b.len(), r[0] % 2 == 0));
                if g.can_merge(&o) != fits {
                    cx.bad(p, format!("can_merge of {} and {} bytes", m.len(), b.len()));
                }
                if fits {
                    if r[0] % 2 == 0 {
                        g.merge_right(&o);
                        m.extend(b);
                    } else {
                        g.merge_left(&o);
                        m.splice(0..0, b);
                    }
                }
            }
            13 => {
                let k = at(r[1], m.len());
                let b = bytes(size(r[2]).min(CAP));
                let o = other(&b, r[3]);
                let fits = m.len() + b.len() <= CAP;
                cx.log(format!("try_insert({}, {} bytes)", k, b.len()));
                match g.try_insert(k, o) {
                    Ok(()) if fits => {
                        m.splice(k..k, b);
                    }
                    Err(o) if !fits && o.bytes() == b => {}
                    x => cx.bad(p, format!("try_insert({}) of {} into {} gave {:?}", k, b.len(), m.len(), x.is_ok())),
                }
            }
            14 => {
                let n = (r[1] as usize) % (3 * CAP + 3);
                let s: String = (0..n).map(|j| (b'a' + (j % 26) as u8) as char).collect();
                cx.log(format!("chunks of {}", n));
                let c = Gap::chunks(&s);
                let all: Vec<u8> = c.iter().flat_map(|x| x.bytes()).collect();
                if all != s.as_bytes() || c.iter().any(|x| x.len() == 0) {
                    cx.bad(p, format!("chunking {} bytes", n));
                }
            }
            15 => {
                let b = bytes(1);
                let fits = m.len() < CAP;
                // push writes at the gap
                g.shift_at(m.len());
                if g.push(b[0]).is_ok() != fits {
                    cx.bad(p, "push reported fit wrongly".into());
                }
                if fits {
                    m.extend(b);
                }
            }
            _ => {
                cx.op("slice");
                slices(cx, r);
            }
        }
        if g.bytes() != m || g.len() != m.len() || g.rle_len() != m.len() || g.to_vec() != m || g.can_remove() != m.is_empty() {
            cx.bad(p, format!("buffer holds {:?}, expected {:?}", g.bytes(), m));
        }
        cx.verdict()?;
    }
    Ok(())
}

fn slices(cx: &mut Ctx, r: &Rec) {
    let p = "C14";
    let n = r[1] as usize % 9;
    let v = V((0..n as u8).collect());
    let (a, b) = (r[2] as usize % (n + 1), r[3] as usize % (n + 1));
    let (a, b) = (a.min(b), a.max(b));
    let k = bounds(a, b, n, r[4]);
    cx.log(format!("provided methods on {} items with {:?}", n, k));
    if v.slice(k).0 != v.0[a..b] {
        cx.bad(p, format!("slice({:?}) of {} items is {:?}", k, n, v.slice(k)));
    }
    let mut x = v.clone();
    x.slice_(k);
    if x.0 != v.0[a..b] {
        cx.bad(p, format!("slice_({:?}) of {} items is {:?}", k, n, x));
    }
    let mut x = v.clone();
    let y = x.split(a);
    if x.0 != v.0[..a] || y.0 != v.0[a..] {
        cx.bad(p, format!("split({}) of {} items is {:?} {:?}", a, n, x, y));
    }
    let mut x = v.clone();
    let mut called = vec![];
    let (y, z) = x.update_with_split(k, |e| {
        called.push(e.0.clone());
        e.0.iter_mut().for_each(|q| *q += 100)
    });
    let want: Vec<u8> = v.0.iter().enumerate().map(|(i, q)| if i >= a && i < b { q + 100 } else { *q }).collect();
    let mut got = x.0.clone();
    let parts = 1 + y.is_some() as usize + z.is_some() as usize;
    got.extend(y.iter().flat_map(|q| q.0.clone()));
    got.extend(z.iter().flat_map(|q| q.0.clone()));
    let wp = if a >= b { 1 } else { 1 + (a > 0) as usize + (b < n) as usize };
    let wc: Vec<Vec<u8>> = if a >= b { vec![] } else { vec![v.0[a..b].to_vec()] };
    if got != want || parts != wp || called != wc {
        cx.bad(p, format!("update_with_split({:?}) of {} items: parts {}, content {:?}", k, n, parts, got));
    }
}
