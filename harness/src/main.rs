//! Searches for an input on which the real code breaks a property, replays one, and counts what it did.
//!
//!   gbt-harness run PROP SEED CASES JOURNAL_DIR OUT_DIR     exit 0 / 1 (violation, replay written)
//!   gbt-harness replay FILE                                 exit 0 / 1
mod elem;
mod gap;
mod huge;
mod ord;
mod rope;
mod tree;

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub type Rec = [u32; 6];

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

#[derive(Debug, Clone)]
pub struct Viol {
    pub prop: String,
    pub what: String,
    pub at: usize,
    pub op: String,
}

pub struct Ctx {
    target: String,
    cur: &'static str,
    at: usize,
    all: Vec<Viol>,
    hit: Option<Viol>,
    logging: bool,
    pub lines: Vec<String>,
    pub counts: BTreeMap<&'static str, u64>,
    shape: u64,
    journal: Option<Arc<std::fs::File>>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

impl Ctx {
    pub fn new(target: &str, logging: bool) -> Self {
        Ctx {
            target: target.into(),
            cur: "start",
            at: 0,
            all: vec![],
            hit: None,
            logging,
            lines: vec![],
            counts: BTreeMap::new(),
            shape: 0,
            journal: None,
        }
    }
    pub fn op(&mut self, name: &'static str) {
        self.cur = name;
        *self.counts.entry(name).or_default() += 1;
    }
    pub fn at(&mut self, i: usize) {
        self.at = i;
        if let Some(j) = &self.journal {
            let _ = j.write_at(&(i as u64).to_le_bytes(), 8);
        }
    }
    pub fn count(&mut self, name: &'static str) {
        *self.counts.entry(name).or_default() += 1;
    }
    pub fn log(&mut self, s: String) {
        if self.logging {
            self.lines.push(format!("[{}] {}", self.at, s));
        }
    }
    pub fn bad(&mut self, prop: &'static str, what: String) {
        let v = Viol {
            prop: prop.into(),
            what,
            at: self.at,
            op: self.cur.into(),
        };
        if self.hit.is_none() && (self.target == prop || self.target == "ALL") {
            self.hit = Some(v.clone());
        }
        if self.all.len() < 50 {
            self.all.push(v);
        }
    }
    pub fn tainted(&self) -> bool {
        !self.all.is_empty()
    }
    pub fn seen_shape(&mut self) -> u64 {
        self.shape
    }
    pub fn verdict(&self) -> Result<(), Viol> {
        match &self.hit {
            Some(v) => Err(v.clone()),
            None => Ok(()),
        }
    }
}

/// A case is a target property, a configuration and a list of operation records.
#[derive(Clone)]
pub struct Case {
    pub prop: String,
    pub cfg: u32,
    pub recs: Vec<Rec>,
}

const TREE_CFGS: u32 = 5;

fn ncfg(prop: &str) -> u32 {
    match prop {
        "C01" => 1,
        "C02" => 1,
        "C14" => 1,
        // tree configurations plus rope (5) and ordered map (6)
        "C04" | "C05" | "C16" | "C15" => 7,
        "ALL" => 8,
        _ => TREE_CFGS,
    }
}

fn exec(cx: &mut Ctx, c: &Case) -> Result<(), Viol> {
    match c.prop.as_str() {
        "C01" => return rope::run(cx, &c.recs, "C01"),
        "C02" => return ord::run(cx, &c.recs),
        "C14" => return gap::run(cx, &c.recs),
        _ => {}
    }
    let p = c.prop.clone();
    match c.cfg {
        0 => tree::run::<true, false, true, 4>(cx, &c.recs, &p),
        1 => tree::run::<true, false, false, 4>(cx, &c.recs, &p),
        2 => tree::run::<false, true, true, 3>(cx, &c.recs, &p),
        3 => tree::run::<false, true, false, 1>(cx, &c.recs, &p),
        4 => tree::run::<false, false, true, 6>(cx, &c.recs, &p),
        5 => rope::run(cx, &c.recs, &p),
        6 => ord::run(cx, &c.recs),
        _ => gap::run(cx, &c.recs),
    }
}

fn op_owner(cfg_op: &str, prop: &str) -> &'static str {
    match cfg_op {
        "rope" => "C01",
        "ord" => "C02",
        "gap" | "slice" => "C14",
        _ => {
            let _ = prop;
            tree::op_prop(cfg_op)
        }
    }
}

/// Runs a case; a panic is a violation of the panicking operation's property and of C16.
pub fn run_case(c: &Case, logging: bool, journal: Option<Arc<std::fs::File>>) -> (Ctx, Result<(), Viol>) {
    let mut cx = Ctx::new(&c.prop, logging);
    cx.journal = journal;
    let r = catch_unwind(AssertUnwindSafe(|| exec(&mut cx, c)));
    let r = match r {
        Ok(x) => x,
        Err(_) => {
            let msg = PANIC.with(|p| p.borrow().clone());
            let owner = op_owner(cx.cur, &c.prop);
            let v = Viol {
                prop: if c.prop == "ALL" { owner.into() } else { c.prop.clone() },
                what: format!("panicked: {}", msg),
                at: cx.at,
                op: cx.cur.into(),
            };
            if c.prop == "ALL" || c.prop == owner || c.prop == "C16" {
                Err(v)
            } else {
                cx.verdict()
            }
        }
    };
    (cx, r)
}

fn gen_case(prop: &str, seed: u64, idx: u64) -> Case {
    let mut g = splitmix(seed.wrapping_mul(0x1000_0001).wrapping_add(idx));
    let mut nx = || {
        g = splitmix(g);
        g
    };
    let cfg = (idx % ncfg(prop) as u64) as u32;
    let shape = nx() % 10;
    let n = match shape {
        0..=2 => 3 + nx() % 12,
        3..=6 => 20 + nx() % 60,
        7..=8 => 80 + nx() % 200,
        _ => 250 + nx() % 400,
    } as usize;
    let recs = (0..n)
        .map(|_| {
            let (a, b, c) = (nx(), nx(), nx());
            [
                a as u32,
                (a >> 32) as u32,
                b as u32,
                (b >> 32) as u32,
                c as u32,
                (c >> 32) as u32,
            ]
        })
        .collect();
    Case {
        prop: prop.into(),
        cfg,
        recs,
    }
}

fn shrink(c: &Case, v: &Viol) -> (Case, Viol) {
    let t0 = std::time::Instant::now();
    let mut best = c.clone();
    let mut bv = v.clone();
    best.recs.truncate(v.at + 1);
    match run_case(&best, false, None).1 {
        Err(x) => bv = x,
        Ok(()) => best = c.clone(),
    }
    let mut chunk = (best.recs.len() / 2).max(1);
    loop {
        let mut progress = false;
        let mut i = 0;
        while i < best.recs.len() {
            if t0.elapsed().as_secs() > 25 {
                return (best, bv);
            }
            let mut t = best.clone();
            let end = (i + chunk).min(t.recs.len());
            t.recs.drain(i..end);
            if let (_, Err(x)) = run_case(&t, false, None) {
                best = t;
                bv = x;
                progress = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !progress {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    // smaller numbers
    for i in 0..best.recs.len() {
        for j in 1..6 {
            if best.recs[i][j] != 0 && t0.elapsed().as_secs() <= 25 {
                let mut t = best.clone();
                t.recs[i][j] = 0;
                if let (_, Err(x)) = run_case(&t, false, None) {
                    best = t;
                    bv = x;
                }
            }
        }
    }
    (best, bv)
}

fn write_replay(dir: &str, c: &Case, v: &Viol, note: &str) -> String {
    let (cx, _) = if note.is_empty() { run_case(c, true, None) } else { (Ctx::new(&c.prop, false), Ok(())) };
    let path = format!("{}/{}.case", dir, c.prop);
    let mut s = String::new();
    s += "# input on which the real code breaks the property; run: gbt-harness replay FILE\n";
    s += &format!("# property {}\n# operation {}: {}\n", v.prop, v.op, v.what.replace('\n', " "));
    if !note.is_empty() {
        s += &format!("# {}\n", note);
    }
    for l in cx.lines.iter().rev().take(400).rev() {
        s += &format!("# {}\n", l.replace('\n', " "));
    }
    s += &format!("prop {}\ncfg {}\n", c.prop, c.cfg);
    for r in &c.recs {
        s += &format!("rec {} {} {} {} {} {}\n", r[0], r[1], r[2], r[3], r[4], r[5]);
    }
    std::fs::write(&path, s).unwrap();
    path
}

fn parse(f: &str) -> Case {
    let s = std::fs::read_to_string(f).unwrap();
    let mut c = Case { prop: String::new(), cfg: 0, recs: vec![] };
    for l in s.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first() {
            Some(&"prop") => c.prop = w[1].into(),
            Some(&"cfg") => c.cfg = w[1].parse().unwrap(),
            Some(&"rec") => {
                let v: Vec<u32> = w[1..].iter().map(|x| x.parse().unwrap()).collect();
                c.recs.push([v[0], v[1], v[2], v[3], v[4], v[5]]);
            }
            _ => {}
        }
    }
    c
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i).replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "replay" => {
            let c = parse(&a[2]);
            // a replay may be of a hang: give up after 60 s
            let done = Arc::new(AtomicBool::new(false));
            let d2 = done.clone();
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_secs(60));
                if !d2.load(Ordering::SeqCst) {
                    println!("FAIL hang: the operation does not return");
                    std::process::exit(1);
                }
            });
            let (cx, r) = run_case(&c, true, None);
            done.store(true, Ordering::SeqCst);
            for l in &cx.lines {
                println!("{}", l);
            }
            match r {
                Ok(()) => println!("OK"),
                Err(v) => {
                    println!("FAIL {} at record {} ({}): {}", v.prop, v.at, v.op, v.what);
                    std::process::exit(1);
                }
            }
        }
        "huge" => {
            if let Err(e) = huge::run(a[2].parse().unwrap()) {
                println!("FAIL {}", e);
                std::process::exit(1);
            }
            println!("OK");
        }
        "run" => {
            let prop = a[2].clone();
            let seed: u64 = a[3].parse().unwrap();
            let cases: u64 = a[4].parse().unwrap();
            let jdir = a[5].clone();
            let odir = a[6].clone();
            let only: Option<u64> = a.get(7).map(|x| x.parse().unwrap());
            let threads = 8usize;
            let next = Arc::new(AtomicU64::new(0));
            let stop = Arc::new(AtomicBool::new(false));
            let found: Arc<Mutex<Option<(u64, Case, Viol)>>> = Arc::new(Mutex::new(None));
            let counts: Arc<Mutex<BTreeMap<&'static str, u64>>> = Default::default();
            let stats: Arc<Mutex<(u64, u64)>> = Default::default();
            let busy: Arc<Vec<(AtomicU64, AtomicU64)>> =
                Arc::new((0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
            let t0 = std::time::Instant::now();
            let mut hs = vec![];
            for w in 0..threads {
                let (prop, next, stop, found, counts, stats, busy, jdir) = (
                    prop.clone(), next.clone(), stop.clone(), found.clone(), counts.clone(), stats.clone(), busy.clone(), jdir.clone(),
                );
                let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                    let jf = Arc::new(
                        std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{}/{}.j", jdir, w)).unwrap(),
                    );
                    let mut mine: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let (mut recs, mut done) = (0u64, 0u64);
                    loop {
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let i = match only {
                            Some(x) => {
                                if w > 0 || done > 0 {
                                    break;
                                }
                                x
                            }
                            None => next.fetch_add(1, Ordering::SeqCst),
                        };
                        if i >= cases {
                            break;
                        }
                        let c = gen_case(&prop, seed, i);
                        let _ = jf.write_at(&(i + 1).to_le_bytes(), 0);
                        busy[w].1.store(i, Ordering::SeqCst);
                        busy[w].0.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                        let (cx, r) = run_case(&c, false, Some(jf.clone()));
                        busy[w].0.store(0, Ordering::SeqCst);
                        recs += cx.at as u64;
                        done += 1;
                        for (k, v) in &cx.counts {
                            *mine.entry(k).or_default() += v;
                        }
                        if let Err(v) = r {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map(|x| x.0 > i).unwrap_or(true) {
                                *f = Some((i, c, v));
                            }
                            stop.store(true, Ordering::SeqCst);
                            break;
                        }
                    }
                    let _ = jf.write_at(&0u64.to_le_bytes(), 0);
                    let mut c = counts.lock().unwrap();
                    for (k, v) in mine {
                        *c.entry(k).or_default() += v;
                    }
                    let mut s = stats.lock().unwrap();
                    s.0 += done;
                    s.1 += recs;
                });
                hs.push(h.unwrap());
            }
            // watchdog: an operation that does not return is a violation of totality and of its property
            loop {
                if hs.iter().all(|h| h.is_finished()) {
                    break;
                }
                let now = t0.elapsed().as_millis() as u64 + 1;
                for b in busy.iter() {
                    let s = b.0.load(Ordering::SeqCst);
                    if s != 0 && now.saturating_sub(s) > 40_000 {
                        let i = b.1.load(Ordering::SeqCst);
                        let c = gen_case(&prop, seed, i);
                        let v = Viol { prop: prop.clone(), what: "does not return".into(), at: 0, op: "?".into() };
                        let p = write_replay(&odir, &c, &v, "the sequence below does not return within 40 s");
                        println!("VIOL {} hang case {}", p, i);
                        std::process::exit(1);
                    }
                }
                std::thread::sleep(std::time::Duration::from_millis(15));
            }
            for h in hs {
                let _ = h.join();
            }
            let st = stats.lock().unwrap();
            let cs = counts.lock().unwrap();
            let mut j = String::from("{");
            for (i, (k, v)) in cs.iter().enumerate() {
                if i > 0 {
                    j += ",";
                }
                j += &format!("\"{}\":{}", k, v);
            }
            j += "}";
            println!("STATS {{\"cases\":{},\"steps\":{},\"ops\":{},\"wall_s\":{:.2}}}", st.0, st.1, j, t0.elapsed().as_secs_f64());
            let f = found.lock().unwrap().take();
            if let Some((i, c, v)) = f {
                // shrink on a thread with a large stack, as the search had
                let (c, v) = std::thread::Builder::new().stack_size(64 << 20).spawn(move || shrink(&c, &v)).unwrap().join().unwrap();
                let p = write_replay(&odir, &c, &v, "");
                println!("VIOL {} case {} {} at {}: {}", p, i, v.prop, v.op, v.what.replace('\n', " "));
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
        }
        _ => std::process::exit(2),
    }
}
