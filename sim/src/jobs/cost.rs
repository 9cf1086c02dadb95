//! Progress within a bounded number of simulated steps: what sweeps and splay
//! maps do, counted at the seams, over long adverse histories.
use super::*;
use crate::rng::Rng;
use crate::scalar::Sim;
use crate::seam::{seam, seams, Interrupt, Kind, Stuck};
use geo::Line;
use geo_crossings::{Crossable, CrossingsIter, Intersections, SplayTree};
use std::cell::Cell;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

fn lg(n: usize) -> f64 {
    ((n + 2) as f64).log2()
}

/// A long history of changes and lookups of a splay map.
pub struct SplayCost {
    n: i64,
    m: i64,
    fill: i64,
    visit: i64,
    only: u64,
    seed: u64,
}
impl SplayCost {
    pub fn parse(v: &Value) -> Self {
        SplayCost { n: int(&v["n"]), m: int(&v["m"]), fill: int(&v["fill"]), visit: int(&v["visit"]), only: int(&v["only"]) as u64, seed: int(&v["seed"]) as u64 }
    }
}
impl Job for SplayCost {
    fn start(&self, who: usize) -> Box<dyn Task> {
        let n = Rc::new(Cell::new(0u64));
        let c = n.clone();
        let cmp: Cmp = Box::new(move |a, b| {
            c.set(c.get() + 1);
            seam(Kind::Cmp);
            a.cmp(b)
        });
        Box::new(SplayCostTask {
            map: seam::api(who, || SplayTree::new(cmp)),
            calls: n,
            allowed: 0.,
            spent: 0,
            at: 0,
            size: 0,
            n: self.n,
            m: self.m,
            fill: self.fill,
            visit: self.visit,
            only: self.only,
            r: Rng::new(self.seed),
        })
    }
    fn props(&self) -> &'static [&'static str] {
        &["S04"]
    }
    fn release_prop(&self) -> &'static str {
        "S04"
    }
    fn sticky(&self) -> bool {
        true
    }
    fn valid(&self) -> bool {
        (1..=100_000).contains(&self.n) && (0..=400_000).contains(&self.m)
    }
}
type Cmp = Box<dyn Fn(&i64, &i64) -> Ordering>;
struct SplayCostTask {
    map: SplayTree<i64, i64, Cmp>,
    calls: Rc<Cell<u64>>,
    allowed: f64,
    spent: u64,
    at: i64,
    size: usize,
    n: i64,
    m: i64,
    fill: i64,
    visit: i64,
    only: u64,
    r: Rng,
}
/// The `i`-th of `n` keys in some order.
fn nth(order: i64, i: i64, n: i64, r: &mut Rng) -> i64 {
    match order {
        0 => i % n,
        1 => n - 1 - i % n,
        // from both ends towards the middle
        2 => {
            if i % 2 == 0 {
                (i / 2) % n
            } else {
                n - 1 - (i / 2) % n
            }
        }
        // bits reversed
        3 => {
            let w = 64 - (n as u64).leading_zeros();
            (((i % n) as u64).reverse_bits() >> (64 - w)) as i64 % n
        }
        // a stride
        4 => (i * 7919) % n,
        // a small working set that moves
        5 => (i / 50 * 31 + r.i(5)) % n,
        // the two ends in turn
        6 => [0, n - 1][(i % 2) as usize],
        // sweeps back and forth
        7 => {
            let k = i % (2 * n);
            k.min(2 * n - 1 - k)
        }
        // one place
        9 => n / 2,
        10 => 0,
        _ => r.i(n),
    }
}
impl Task for SplayCostTask {
    fn step(&mut self, cx: &mut Cx) -> bool {
        let who = cx.who;
        for _ in 0..200 {
            if self.at >= self.n + self.m {
                cx.see(self.map.len() as u64);
                return false;
            }
            let i = self.at;
            self.at += 1;
            let filling = i < self.n;
            let k = if filling { nth(self.fill, i, self.n, &mut self.r) } else { nth(self.visit, i - self.n, self.n, &mut self.r) };
            let what = match self.only {
                _ if filling => 0,
                0 => self.r.n(12),
                o => o,
            };
            let before = self.calls.get();
            let map = &mut self.map;
            let r = catch_unwind(AssertUnwindSafe(|| {
                seam::api(who, || match what {
                    0 => map.insert(k, i).is_some(),
                    1 => map.remove(&k).is_some(),
                    2 => map.get_mut(&k).is_some(),
                    3 => map.contains(&k),
                    4 => map.find_key(&k).is_some(),
                    5 | 6 => map.next(&k).is_some(),
                    7 | 8 => map.prev(&k).is_some(),
                    _ => map.get(&k).is_some(),
                })
            }));
            match r {
                Err(p) if p.is::<Stuck>() || !p.is::<Interrupt>() => std::panic::resume_unwind(p),
                // What was interrupted changed nothing, and is not charged.
                Err(_) => continue,
                Ok(b) => cx.see(b as u64),
            }
            self.size = self.size.max(self.map.len());
            self.spent += self.calls.get() - before;
            self.allowed += 6. * lg(self.size) + 16.;
            cx.nontrivial |= self.size > 100 && !filling;
            let (s, a) = (self.spent, self.allowed as u64);
            if !cx.check("S04", s <= a, || format!("{s} comparator calls for {i} operations on at most {} entries", self.size)) {
                return false;
            }
        }
        true
    }
}

/// A sweep over many lines.
pub struct SweepCost {
    lines: Rc<Vec<[i64; 4]>>,
    pairs: bool,
    share: f64,
}
impl SweepCost {
    pub fn parse(v: &Value) -> Self {
        let mut r = Rng::new(int(&v["seed"]) as u64);
        let (f, pairs) = (int(&v["family"]), v["pairs"].as_bool().unwrap_or(false));
        // There are as many pairs as the square of what meets in a point.
        let most = if pairs && matches!(f, 3 | 10) { 400 } else { 4000 };
        let lines = family(f, int(&v["n"]).clamp(1, most), &mut r);
        let share = SHARE[f.clamp(0, 11) as usize];
        SweepCost { lines: Rc::new(lines), pairs, share: if pairs { share.1 } else { share.0 } }
    }
}
/// Part of the general bound which a family may use, for crossings and for pairs:
/// at least twice what it needs, with this tree or with a balanced one.
const SHARE: [(f64, f64); 12] = [
    (0.8, 0.6),
    (0.8, 0.6),
    (1.15, 1.7),
    (0.66, 0.31),
    (1.1, 1.55),
    (0.18, 0.12),
    (0.65, 0.4),
    (0.5, 0.35),
    (0.16, 0.09),
    (0.47, 0.49),
    (1.25, 0.85),
    (0.47, 0.28),
];
/// Lines without overlaps, whose intersections are at integer points.
fn family(f: i64, n: i64, r: &mut Rng) -> Vec<[i64; 4]> {
    let mut v: Vec<[i64; 4]> = vec![];
    match f {
        // long parallels, starting and ending in some order
        0 | 1 => {
            let (a, b) = (r.i(8), r.i(8));
            for i in 0..n {
                let (x0, x1) = (nth(a, i, n, r), 2 * n + nth(b, i, n, r));
                v.push([x0, 3 * i, x1, 3 * i]);
            }
        }
        // a grid
        2 => {
            let s = (n as f64).sqrt() as i64 + 1;
            for i in 0..s {
                v.push([-1, 2 * i, 2 * s, 2 * i]);
                v.push([2 * i, -1, 2 * i, 2 * s]);
            }
        }
        // fans
        3 => {
            let mut i = 0;
            while i < n {
                let w = (1 + r.logn(n.min(2500) as u64) as i64).min(n - i);
                let y = 10_000 * v.len() as i64;
                for j in 0..w {
                    v.push([0, y, 1000, y + 3 * j]);
                }
                i += w;
            }
        }
        // rising and falling diagonals
        4 => {
            let s = (n as f64).sqrt() as i64 + 2;
            for i in 0..s {
                v.push([0, 2 * i, 2 * s, 2 * i + 2 * s]);
                v.push([0, 2 * i, 2 * s, 2 * i - 2 * s]);
            }
        }
        // short lines scattered
        5 => {
            for i in 0..n {
                let (x, y) = (r.i(20 * n), 4 * nth(8, i, n, r) + 8 * n * (i % 2));
                v.push([x, y, x + 1 + r.i(3), y + r.i(2)]);
            }
            v.sort();
            v.dedup_by_key(|l| l[1]);
        }
        // a comb: many long lines, short ones at one place among them
        6 | 7 => {
            let h = n / 2;
            let a = r.i(8);
            for i in 0..h {
                v.push([nth(a, i, h, r), 10 * i, 100 * n, 10 * i]);
            }
            let y = 10 * r.i(h.max(1)) + 5;
            for i in 0..h {
                let y = if f == 6 { y } else { 10 * nth(a, i, h, r) + 5 };
                v.push([2 * n + 4 * i, y, 2 * n + 4 * i + 2, y]);
            }
        }
        // steps, and points on their corners
        8 => {
            for i in 0..n / 2 {
                v.push([i, i, i + 1, i]);
                v.push([i + 1, i, i + 1, i + 1]);
                if i % 3 == 0 {
                    v.push([i, i, i, i]);
                }
            }
        }
        // pencils
        10 => {
            let mut i = 0;
            while i < n {
                let w = (1 + r.logn(n as u64) as i64).min(n - i);
                let y = 100_000 * v.len() as i64;
                for j in 0..w {
                    v.push([-1000, y - 3 * j, 1000, y + 3 * j]);
                }
                i += w;
            }
        }
        // lines with points on and beside them
        11 => {
            for i in 0..n / 4 {
                let y = 6 * nth(8, i, n, r);
                v.push([0, y, 2 * n, y]);
                for _ in 0..3 {
                    let (x, y) = (r.i(2 * n), y + r.i(3));
                    v.push([x, y, x, y]);
                }
            }
            v.sort();
            v.dedup();
            let mut seen = std::collections::BTreeSet::new();
            v.retain(|l| l[0] == l[2] || seen.insert(l[1]));
        }
        // one long line crossed by many
        _ => {
            v.push([-1, 0, 4 * n, 0]);
            for i in 0..n {
                v.push([4 * i, -2 * (1 + r.i(3)), 4 * i, 2 * (1 + r.i(3))]);
            }
        }
    }
    r.shuffle(&mut v);
    for l in v.iter_mut() {
        if r.one_in(2) {
            l.swap(0, 2);
            l.swap(1, 3);
        }
    }
    v
}
#[derive(Clone, Debug)]
struct L(Line<Sim>);
impl Crossable for L {
    type Scalar = Sim;
    fn line(&self) -> Line<Sim> {
        seam(Kind::Line);
        self.0
    }
}
impl Job for SweepCost {
    fn start(&self, _: usize) -> Box<dyn Task> {
        let input: Vec<L> = self.lines.iter().map(|l| L(Line::new(co((l[0], l[1]), 1.), co((l[2], l[3]), 1.)))).collect();
        let n = input.len();
        Box::new(SweepCostTask { input: Some(input), n, pairs: self.pairs, share: self.share, it: None, px: None, spent: 0, found: 0 })
    }
    fn props(&self) -> &'static [&'static str] {
        &["C04"]
    }
    fn release_prop(&self) -> &'static str {
        "C04"
    }
}
struct SweepCostTask {
    input: Option<Vec<L>>,
    n: usize,
    pairs: bool,
    share: f64,
    it: Option<CrossingsIter<L>>,
    px: Option<Intersections<L>>,
    spent: u64,
    /// Incidents or pairs reported so far.
    found: usize,
}
impl Task for SweepCostTask {
    fn step(&mut self, cx: &mut Cx) -> bool {
        for _ in 0..100 {
            let s0 = seams();
            let (end, found) = cx.api(|| {
                if let Some(v) = self.input.take() {
                    if self.pairs {
                        self.px = Some(v.into_iter().collect());
                    } else {
                        self.it = Some(v.into_iter().collect());
                    }
                    return (false, 0);
                }
                if let Some(it) = &mut self.it {
                    let e = it.next().is_none();
                    (e, it.intersections().len())
                } else if let Some(it) = &mut self.px {
                    let e = it.next().is_none();
                    (e, !e as usize)
                } else {
                    (true, 0)
                }
            });
            let cost = seams() - s0;
            self.spent += cost;
            self.found += found;
            cx.nontrivial |= self.found > 50;
            // Looking at a pair costs more than looking at a line.
            let (a, b) = if self.pairs { (150., 1200.) } else { (60., 400.) };
            let allowed = (2 * self.n + self.found) as f64 * (a * lg(self.n) + b) * self.share;
            if !cx.check("C04", self.spent as f64 <= allowed, || format!("{} number operations for {} lines and {} results so far", self.spent, self.n, self.found)) || end {
                cx.see(self.found as u64);
                return false;
            }
        }
        true
    }
}
