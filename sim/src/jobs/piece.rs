//! Monotone pieces as values: a history of building, copying and converting them,
//! some of it with chains that were damaged on the way.
use super::*;
use crate::gen::loose_piece;
use crate::geom::P;
use crate::scalar::{Coord, Sim};
use crate::seam::{harness, printing, Interrupt, Stuck};
use geo::prelude::BoundingRect;
use geo::LineString;
use geo_crossings::monotone::MonoPoly;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

type Chain = Vec<P>;
pub struct PieceJob {
    top: Chain,
    bot: Chain,
    ops: Rc<Vec<Vec<i64>>>,
    exp: i64,
    nz: u64,
    scalar: String,
}
impl PieceJob {
    pub fn parse(v: &Value) -> Self {
        let scalar: String = v["scalar"].as_str().unwrap_or("f64").into();
        PieceJob {
            top: pts(&ints(&v["top"])),
            bot: pts(&ints(&v["bot"])),
            ops: Rc::new(rows(&v["ops"])),
            exp: if scalar.starts_with('i') { 0 } else { int(&v["exp"]) },
            nz: v["nz"].as_u64().unwrap_or(0),
            scalar,
        }
    }
    fn go<S: Coord>(&self) -> Box<dyn Task> {
        Box::new(PieceTask::<S> {
            top: self.top.clone(),
            bot: self.bot.clone(),
            ops: self.ops.clone(),
            k: pow2(self.exp),
            nz: self.nz,
            at: 0,
            pool: vec![],
        })
    }
}
impl Job for PieceJob {
    fn start(&self, _: usize) -> Box<dyn Task> {
        match self.scalar.as_str() {
            "i16" => self.go::<i16>(),
            "i32" => self.go::<i32>(),
            "i64" => self.go::<i64>(),
            "f32" => self.go::<f32>(),
            "sim" => self.go::<Sim>(),
            _ => self.go::<f64>(),
        }
    }
    fn props(&self) -> &'static [&'static str] {
        &["M05"]
    }
    fn release_prop(&self) -> &'static str {
        "M05"
    }
    fn valid(&self) -> bool {
        loose_piece(&self.top, &self.bot)
    }
}
struct PieceTask<S: Coord> {
    top: Chain,
    bot: Chain,
    ops: Rc<Vec<Vec<i64>>>,
    k: f64,
    nz: u64,
    at: usize,
    /// Pieces alive, and the chains they were built from.
    pool: Vec<(MonoPoly<S>, Chain, Chain)>,
}
fn line<S: Coord>(c: &[P], k: f64, z: u64) -> LineString<S> {
    LineString(c.iter().enumerate().map(|(i, p)| coz(*p, k, z, i)).collect())
}
fn same<S: Coord>(l: &[geo::Coordinate<S>], c: &[P], k: f64) -> bool {
    harness(|| l.len() == c.len() && l.iter().zip(c).all(|(a, b)| ip(un(*a, k)) == Some(*b)))
}
/// What the constructor must accept.
fn proper(t: &[P], b: &[P]) -> bool {
    let up = |c: &[P]| c.windows(2).all(|w| w[0] < w[1]);
    t.len() > 1 && b.len() > 1 && t[0] == b[0] && t.last() == b.last() && up(t) && up(b)
}
/// Damages the chains in one of many ways.
fn damage(t: &mut Chain, b: &mut Chain, how: i64, place: i64) {
    let c: &mut Chain = if place % 2 == 0 { t } else { b };
    let n = c.len();
    let i = (place / 2) as usize % n;
    match how {
        0 => c.swap(i, (i + 1) % n),
        1 => c.insert(i, c[i]),
        2 => c[n - 1].0 += 1 + place % 3,
        3 => c[0].1 -= 1 + place % 3,
        4 => c[n - 1].1 += 1,
        5 => c.reverse(),
        6 => c[i].0 = c[(i + 1) % n].0 + 1,
        7 => {
            let p = (c[i].0, c[i].1 - 1);
            c.insert(i + 1, p)
        }
        8 => {
            t.reverse();
            b.reverse();
        }
        9 => c.clear(),
        10 => c.truncate(1),
        11 => {
            t.truncate(1);
            b.truncate(1);
        }
        12 => {
            t.clear();
            b.clear();
        }
        13 => {
            // there and back
            let p = c[0];
            c.push(p);
        }
        14 => c[i].0 += 1,
        _ => c[i].0 -= 1,
    }
}
impl<S: Coord> PieceTask<S> {
    fn op(&mut self, op: &[i64], cx: &mut Cx) -> Result<(), String> {
        let (k, z) = (self.k, self.nz);
        let (what, which, how) = (op[0], op[1], op[2]);
        let n = self.pool.len();
        if what < 3 || n == 0 {
            // Build one: of these chains, or others not far from them.
            let (dx, dy) = (which % 5 - 2, how % 7 - 3);
            let mv = |c: &Chain| -> Chain { c.iter().map(|p| (p.0 + dx, p.1 + dy)).collect() };
            let (mut t, mut b) = (mv(&self.top), mv(&self.bot));
            if what == 2 {
                damage(&mut t, &mut b, which % 16, how);
            }
            let good = proper(&t, &b);
            let (lt, lb) = cx.api(|| (line::<S>(&t, k, z), line::<S>(&b, k, z.wrapping_mul(5))));
            let made = catch_unwind(AssertUnwindSafe(|| printing(|| cx.api(|| MonoPoly::new(lt, lb)))));
            return match made {
                Ok(m) => {
                    if !good {
                        return Err(format!("accepted chains {t:?} and {b:?}"));
                    }
                    self.pool.push((m, t, b));
                    Ok(())
                }
                Err(p) if p.is::<Interrupt>() || p.is::<Stuck>() => resume_unwind(p),
                Err(_) if !good => {
                    cx.nontrivial = true;
                    Ok(())
                }
                Err(p) => Err(format!("refused chains {t:?} and {b:?}: {}", message(&*p))),
            };
        }
        let i = which as usize % n;
        match what {
            3 => {
                let (m, t, b) = &self.pool[i];
                let l = cx.api(|| (m.top(), m.bot()));
                if !same(&l.0 .0, t, k) || !same(&l.1 .0, b, k) {
                    return Err(format!("chains became {l:?} instead of {t:?} and {b:?}"));
                }
            }
            4 => {
                let (m, t, b) = &self.pool[i];
                let r = cx.api(|| m.bounding_rect());
                let ys = || t.iter().chain(b).map(|p| p.1);
                let want = ((t[0].0, ys().min().unwrap()), (t[t.len() - 1].0, ys().max().unwrap()));
                let got = harness(|| (un(r.min(), k), un(r.max(), k)));
                if ip(got.0) != Some(want.0) || ip(got.1) != Some(want.1) {
                    return Err(format!("bounding box of {t:?} and {b:?} is {got:?}"));
                }
                cx.nontrivial |= t.len() + b.len() > 6;
            }
            5 => {
                let (m, t, b) = &self.pool[i];
                let c = (cx.api(|| m.clone()), t.clone(), b.clone());
                self.pool.push(c);
            }
            6 => {
                let (m, t, b) = self.pool.swap_remove(i);
                let p = cx.api(|| m.into_polygon());
                let mut want = t.clone();
                want.extend(b[1..b.len() - 1].iter().rev());
                let got: Option<Chain> = harness(|| p.exterior().0.iter().map(|c| ip(un(*c, k))).collect());
                let ok = p.interiors().is_empty() && got.as_ref().is_some_and(|g| around(g, &want));
                if !ok {
                    return Err(format!("{t:?} and {b:?} became the polygon {p:?}"));
                }
                cx.api(|| drop(p));
            }
            7 => {
                let (m, t, b) = self.pool.swap_remove(i);
                let (lt, lb) = cx.api(|| m.into_ls_pair());
                if !same(&lt.0, &t, k) || !same(&lb.0, &b, k) {
                    return Err(format!("chains became {lt:?}, {lb:?} instead of {t:?}, {b:?}"));
                }
                let m = cx.api(|| MonoPoly::new(lt, lb));
                self.pool.push((m, t, b));
            }
            8 => {
                let (m, ..) = self.pool.swap_remove(i);
                cx.api(|| drop(m));
            }
            _ => {
                let s = cx.api(|| format!("{:?}", self.pool[i].0));
                cx.sees(&s);
            }
        }
        Ok(())
    }
}
/// Is `g` the closed ring through `want`, from any vertex, either way around?
fn around(g: &[P], want: &[P]) -> bool {
    let n = want.len();
    if g.len() != n + 1 || g[0] != g[n] {
        return false;
    }
    let Some(s) = want.iter().position(|p| *p == g[0]) else { return false };
    (0..n).all(|i| g[i] == want[(s + i) % n]) || (0..n).all(|i| g[i] == want[(s + n - i) % n])
}
impl<S: Coord> Task for PieceTask<S> {
    fn step(&mut self, cx: &mut Cx) -> bool {
        let ops = self.ops.clone();
        let Some(op) = ops.get(self.at).filter(|o| o.len() == 3) else { return false };
        self.at += 1;
        let r = self.op(op, cx);
        cx.see(self.pool.len() as u64);
        cx.verdict("M05", r);
        cx.bad.is_empty()
    }
}
