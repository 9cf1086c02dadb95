//! Tear-down of big structures on a small stack.
use super::*;
use crate::seam::{harness, Interrupt};
use crate::token::{self, Tok};
use geo::{Coordinate, Line};
use geo_crossings::{Crossable, CrossingsIter, SplaySet, SplayTree};
use std::cmp::Ordering;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

const STACK: usize = 192 << 10;

/// what: 0 map drop, 1 clear, 2 partial iteration, 3 set drop, 4 sweep dropped
/// with many active lines, 5 removal of everything.
pub struct DeepJob {
    what: i64,
    n: i64,
    order: i64,
    part: i64,
    /// Destructor (of the library's copies) that panics, or 0.
    boom: i64,
}
impl DeepJob {
    pub fn parse(v: &Value) -> Self {
        DeepJob { what: int(&v["what"]), n: int(&v["n"]), order: int(&v["order"]), part: int(&v["part"]), boom: int(&v["boom"]) }
    }
}
impl Job for DeepJob {
    fn start(&self, _: usize) -> Box<dyn Task> {
        Box::new(DeepTask { what: self.what, n: self.n, order: self.order, part: self.part, boom: self.boom })
    }
    fn props(&self) -> &'static [&'static str] {
        if self.what == 4 {
            &["C03"]
        } else {
            &["S03"]
        }
    }
    fn release_prop(&self) -> &'static str {
        if self.what == 4 {
            "C03"
        } else {
            "S03"
        }
    }
    fn valid(&self) -> bool {
        (0..=400_000).contains(&self.n)
    }
}
struct DeepTask {
    what: i64,
    n: i64,
    order: i64,
    part: i64,
    /// Destructor (of the library's copies) that panics, or 0.
    boom: i64,
}
#[derive(Clone, Debug)]
struct L(Line<f64>);
impl Crossable for L {
    type Scalar = f64;
    fn line(&self) -> Line<f64> {
        self.0
    }
}
fn cmp(a: &Tok, b: &Tok) -> Ordering {
    a.id.cmp(&b.id)
}
fn key(order: i64, i: i64, n: i64) -> i64 {
    match order {
        0 => i,
        1 => n - i,
        2 => {
            // zig-zag: from both ends towards the middle
            if i % 2 == 0 {
                i
            } else {
                2 * n - i
            }
        }
        _ => (i * 7919) % (2 * n + 1),
    }
}
fn run(t: &DeepTask, who: usize) -> Result<u64, String> {
    let ar = 40 + who as u32;
    token::reset(ar);
    seam::set_drop((t.boom > 0).then_some(t.boom as u64));
    let mut seen = 0u64;
    let r = catch_unwind(AssertUnwindSafe(|| work(t, who, ar, &mut seen)));
    let fired = seam::drop_fired();
    seam::set_drop(None);
    match r {
        Err(p) if !p.is::<Interrupt>() => resume_unwind(p),
        _ => {}
    }
    if let Some(e) = token::error(ar) {
        return Err(e);
    }
    match token::live(ar) {
        0 => Ok(seen),
        // A value on its way out of the call in which a destructor panics is lost.
        1 if fired => Ok(seen),
        l => Err(format!("{l} keys or values were never dropped")),
    }
}
fn work(t: &DeepTask, who: usize, ar: u32, seen: &mut u64) {
    let n = t.n;
    match t.what {
        4 => {
            let v: Vec<L> = (0..n)
                .map(|i| {
                    let y = key(t.order, i, n) as f64;
                    L(Line::new(Coordinate { x: (i % 5) as f64, y }, Coordinate { x: 1000. + (i % 3) as f64, y }))
                })
                .collect();
            seam::api(who, || {
                let mut it: CrossingsIter<L> = v.into_iter().collect();
                for _ in 0..t.part {
                    if it.next().is_none() {
                        break;
                    }
                    *seen += 1;
                }
                drop(it);
            });
        }
        3 => {
            let ks: Vec<Tok> = (0..n).map(|i| Tok::new(ar, key(t.order, i, n))).collect();
            seam::api(who, || {
                let mut s = SplaySet::new(cmp);
                s.extend(ks);
                *seen += s.len() as u64;
                if t.part % 2 == 1 {
                    s.clear();
                }
            });
        }
        _ => {
            let ks: Vec<(Tok, Tok)> = (0..n).map(|i| (Tok::new(ar, key(t.order, i, n)), Tok::new(ar, -i))).collect();
            let probe = Tok::new(ar, n / 3);
            seam::api(who, || {
                let mut m = SplayTree::new(cmp);
                m.extend(ks);
                *seen += m.len() as u64;
                match t.what {
                    0 => drop(m),
                    1 => {
                        m.clear();
                        *seen += m.len() as u64;
                        drop(m);
                    }
                    5 => {
                        while let Some(k) = m.min().map(|k| k.id) {
                            let q = harness(|| Tok::new(ar, k));
                            m.remove(&q);
                            *seen += 1;
                            if t.part > 0 && *seen > t.part as u64 + n as u64 {
                                break;
                            }
                        }
                        drop(m);
                    }
                    _ => {
                        if t.order == 1 {
                            *seen += m.get(&probe).is_some() as u64;
                        }
                        let mut it = m.into_iter();
                        // Changing ends walks the whole spine: do it now and then.
                        let run = (t.part / 12).max(1);
                        for i in 0..t.part {
                            let e = if (i / run) % 3 == 2 { it.next_back() } else { it.next() };
                            if e.is_none() {
                                break;
                            }
                            *seen += 1;
                        }
                        drop(it);
                    }
                }
            });
        }
    }
}
impl Task for DeepTask {
    fn step(&mut self, cx: &mut Cx) -> bool {
        let who = cx.who;
        let t = DeepTask { ..*self };
        let p = if self.what == 4 { "C03" } else { "S03" };
        let h = std::thread::Builder::new().stack_size(STACK).spawn(move || run(&t, who)).unwrap();
        match h.join() {
            Ok(Ok(n)) => {
                cx.see(n);
                cx.nontrivial = true;
                cx.checks += 1;
            }
            Ok(Err(e)) => cx.bad(p, e),
            Err(p2) => cx.bad(p, format!("panicked: {}", message(&*p2))),
        }
        false
    }
}
